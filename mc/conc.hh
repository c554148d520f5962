// Controlled scheduler for real multi-threaded code: every thread is a fiber; a scheduling point is every
// memory access the compiler instruments in the code under test (compiled with -fsanitize=thread, whose
// runtime hooks are replaced by ours) to the objects under test, and every pthread mutex operation.  Which thread runs next is a mc::choose(); switching away from a thread that could
// continue costs one of the run's preemptions.  No enabled thread = deadlock = violation.
#ifndef CONC_HH
#define CONC_HH
#include "mc.hh"
#include <pthread.h>
#include <functional>
#include <vector>
namespace conc {
// Runs the bodies to completion under every schedule with at most `preemptions` preemptions.
// finegrained: memory accesses are scheduling points too (else only mutex operations).
void run(const std::vector<std::function<void()> >& bodies, int preemptions, bool finegrained);
void watchNew(bool on); // memory allocated with new while on is the shared memory whose accesses are scheduling points
int  self();            // index of the running thread, -1 outside run()
long clock();           // logical time, increases at every scheduling point
void yieldPoint();      // explicit scheduling point
bool mutexHeld(pthread_mutex_t* m);  // by anyone
int  mutexOwner(pthread_mutex_t* m); // -1 if free
int  heldBySelf();      // number of mutexes the running thread holds
}
#endif
