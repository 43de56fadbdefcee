// Sends a source's system calls to the model in kernel.h.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <sys/socket.h>
extern "C" {
int sxk_open(const char*, int, ...); int sxk_close(int); ssize_t sxk_read(int, void*, size_t); ssize_t sxk_write(int, const void*, size_t);
int sxk_fstat(int, struct stat*); int sxk_stat(const char*, struct stat*); int sxk_lstat(const char*, struct stat*);
int sxk_mkdir(const char*, mode_t); int sxk_rmdir(const char*); int sxk_unlink(const char*); int sxk_rename(const char*, const char*);
int sxk_chdir(const char*); char* sxk_getcwd(char*, size_t); DIR* sxk_opendir(const char*); struct dirent* sxk_readdir(DIR*); int sxk_closedir(DIR*);
}
#define open sxk_open
#define close sxk_close
#define read sxk_read
#define write sxk_write
#define fstat(a, b) sxk_fstat(a, b)
#define stat(a, b) sxk_stat(a, b)
#define lstat(a, b) sxk_lstat(a, b)
#define mkdir sxk_mkdir
#define rmdir sxk_rmdir
#define unlink sxk_unlink
#define rename sxk_rename
#define chdir sxk_chdir
#define getcwd sxk_getcwd
#define opendir sxk_opendir
#define readdir sxk_readdir
#define closedir sxk_closedir
