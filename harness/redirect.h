// forced into the sources whose system calls a harness models: the calls go to the harness's verif_ functions
#include <features.h>
#include <stddef.h>
#include <sys/types.h>
#define VR(f) __asm__("verif_" #f)
extern "C" {
int open(const char*, int, ...) VR(open);
int ftruncate(int, off_t) __THROW VR(ftruncate);
int ftruncate64(int, off64_t) __THROW VR(ftruncate64);
void* mmap(void*, size_t, int, int, int, off_t) __THROW VR(mmap);
void* mmap64(void*, size_t, int, int, int, off64_t) __THROW VR(mmap64);
int munmap(void*, size_t) __THROW VR(munmap);
int close(int) VR(close);
int remove(const char*) __THROW VR(remove);
int unlink(const char*) __THROW VR(unlink);
long sysconf(int) __THROW VR(sysconf);
int getpagesize(void) __THROW VR(getpagesize);
struct stat;
int stat(const char* __restrict, struct stat* __restrict) __THROW VR(stat);
int mkdir(const char*, mode_t) __THROW VR(mkdir);
int access(const char*, int) __THROW VR(access);
pid_t getpid(void) __THROW VR(getpid);
}
#undef VR
