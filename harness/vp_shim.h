/* declares the stand-ins, then renames the calls of the code compiled after it */
#ifndef VP_SHIM_H
#define VP_SHIM_H
#include <pthread.h>
#include <sys/time.h>
#include <time.h>
#ifdef __cplusplus
#include <string>
#include <vector>
#include <iostream>
#include <new>
extern "C" {
#endif
int vps_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *); int vps_mutex_destroy(pthread_mutex_t *); int vps_mutex_lock(pthread_mutex_t *); int vps_mutex_trylock(pthread_mutex_t *); int vps_mutex_unlock(pthread_mutex_t *);
int vps_cond_init(pthread_cond_t *, const pthread_condattr_t *); int vps_cond_destroy(pthread_cond_t *); int vps_cond_signal(pthread_cond_t *); int vps_cond_broadcast(pthread_cond_t *); int vps_cond_wait(pthread_cond_t *, pthread_mutex_t *); int vps_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
pthread_t vps_self(void); int vps_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); int vps_join(pthread_t, void **); int vps_gettimeofday(struct timeval *, void *);
#ifdef __cplusplus
}
#endif
#define pthread_create vps_create
#define pthread_join vps_join
#define pthread_self vps_self
#define pthread_mutex_init vps_mutex_init
#define pthread_mutex_destroy vps_mutex_destroy
#define pthread_mutex_lock vps_mutex_lock
#define pthread_mutex_trylock vps_mutex_trylock
#define pthread_mutex_unlock vps_mutex_unlock
#define pthread_cond_init vps_cond_init
#define pthread_cond_destroy vps_cond_destroy
#define pthread_cond_signal vps_cond_signal
#define pthread_cond_broadcast vps_cond_broadcast
#define pthread_cond_wait vps_cond_wait
#define pthread_cond_timedwait vps_cond_timedwait
#define gettimeofday vps_gettimeofday
#endif
