// Sends a source's socket and thread calls to the model in http.cpp.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <mutex>
#include <string>
#include <unistd.h>
#include <pthread.h>
#include <sys/socket.h>
#include <netinet/in.h>
extern "C" {
int sxk_socket(int, int, int); int sxk_setsockopt(int, int, int, const void*, socklen_t); int sxk_bind(int, const void*, socklen_t);
int sxk_listen(int, int); int sxk_accept(int, struct sockaddr*, socklen_t*); int sxk_connect(int, const void*, socklen_t); int sxk_close(int);
int sxk_thread(void* (*f)(void*), void* p);
}
#define socket(a, b, c) sxk_socket(a, b, c)
#define setsockopt sxk_setsockopt
#define bind(a, b, c) sxk_bind(a, b, c)
#define listen(a, b) sxk_listen(a, b)
#define accept sxk_accept // (the method of the same name is renamed along with it)
#define close sxk_close
#define connect(a, b, c) sxk_connect(a, b, c)
#define pthread_create(a, b, f, p) sxk_thread(f, p)
#define pthread_detach(a) ((void) 0)
