/* Stands in for Trick's message publisher, which isn't installed: the harness records what is published. */
#ifndef MESSAGE_PROTO_STUB_H
#define MESSAGE_PROTO_STUB_H
#ifdef __cplusplus
extern "C" {
#endif
enum { MSG_NORMAL = 0, MSG_INFO = 1, MSG_WARNING = 2, MSG_ERROR = 3, MSG_DEBUG = 10 };
int message_publish(int level, const char* format, ...);
#ifdef __cplusplus
}
#endif
#endif
