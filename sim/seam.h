#pragma once
#include <semaphore.h>
namespace sim {
extern bool seam_on;
void seam_set_sems(sem_t *s);
void seam_wait_turn(int me);
}
