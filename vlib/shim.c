/* Interposed file operations (to be preloaded).

   Operations on files below the root directory, except for those known
   beforehand, are numbered; according to the plan the process is killed,
   writes are torn or fail, or every operation waits for a permission of the
   controller. */
#define _GNU_SOURCE
#undef _FILE_OFFSET_BITS
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAX_FD 4096
#define MAX_KNOWN 4096

static char root[1024];
static size_t root_length;
static char *known[MAX_KNOWN];
static size_t known_count;
static char *paths[MAX_FD];
static volatile long *counter;
static int log_fd = -1, control_in = -1, control_out = -1;
static char mode[32];
static long target = -1, argument = 0;
static pid_t main_pid;
static int enabled;

static long raw_write(int fd, const void *data, size_t size) {
  return syscall(SYS_write, fd, data, size);
}

__attribute__((constructor)) static void initialize(void) {
  const char *value = getenv("VSHIM_ROOT");
  main_pid = getpid();
  if (value == NULL) return;
  snprintf(root, sizeof root, "%s/", value);
  root_length = strlen(root);
  value = getenv("VSHIM_KNOWN");
  if (value != NULL) {
    FILE *file = fopen(value, "r");
    char line[2048];
    while (file != NULL && fgets(line, sizeof line, file) != NULL
           && known_count < MAX_KNOWN) {
      line[strcspn(line, "\n")] = 0;
      known[known_count++] = strdup(line);
    }
    if (file != NULL) fclose(file);
  }
  value = getenv("VSHIM_COUNTER");
  if (value != NULL) {
    int fd = syscall(SYS_openat, AT_FDCWD, value, O_RDWR | O_CLOEXEC);
    if (fd >= 0) {
      counter = mmap(NULL, sizeof(long), PROT_READ | PROT_WRITE, MAP_SHARED,
                     fd, 0);
      syscall(SYS_close, fd);
      if (counter == MAP_FAILED) counter = NULL;
    }
  }
  value = getenv("VSHIM_LOG");
  if (value != NULL)
    log_fd = syscall(SYS_openat, AT_FDCWD, value,
                     O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
  value = getenv("VSHIM_CONTROL");
  if (value != NULL) sscanf(value, "%d,%d", &control_in, &control_out);
  value = getenv("VSHIM_PLAN");
  if (value != NULL) sscanf(value, "%31[^@]@%ld:%ld", mode, &target,
                            &argument);
  enabled = 1;
}

static int is_tracked(const char *path) {
  if (!enabled || path == NULL || strncmp(path, root, root_length)) return 0;
  for (size_t index = 0; index < known_count; ++index)
    if (!strcmp(known[index], path)) return 0;
  return 1;
}

static const char *path_of(int fd) {
  return fd >= 0 && fd < MAX_FD ? paths[fd] : NULL;
}

/* Result: -1 if the operation should be done, error code otherwise. */
static int enter(const char *name, const char *path, long size, int is_write) {
  long number;
  char line[4096];
  int saved = errno, result = -1;
  if (control_in >= 0) {
    char answer;
    int length = snprintf(line, sizeof line, "%s %ld %s\n", name, size, path);
    raw_write(control_out, line, length);
    while (syscall(SYS_read, control_in, &answer, 1) < 0 && errno == EINTR) ;
    if (answer == 'k') syscall(SYS_kill, 0, SIGKILL);
    errno = saved;
    return -1;
  }
  if (!is_write && strncmp(mode, "read", 4)) return -1;
  if (is_write && !strncmp(mode, "read", 4)) return -1;
  number = counter == NULL ? -1 : __sync_add_and_fetch(counter, 1);
  if (log_fd >= 0) {
    int length = snprintf(line, sizeof line, "%ld %s %ld %s\n", number, name,
                          size, path);
    raw_write(log_fd, line, length);
  }
  if (number == target && !strcmp(mode, "crash"))
    syscall(SYS_kill, 0, SIGKILL);
  else if (number == target && (!strcmp(mode, "error")
                                || !strcmp(mode, "readerror")))
    result = (int)argument;
  else if (number >= target && target >= 0
           && (!strcmp(mode, "errors") || !strcmp(mode, "readerrors")))
    result = (int)argument;
  errno = saved;
  return result;
}

static int is_torn(void) {
  return counter != NULL && *counter == target && !strcmp(mode, "torn");
}

static int is_short(void) {
  return counter != NULL && *counter == target && !strcmp(mode, "short");
}

/* Kills the process itself if it is not the main one. */
static void helper_step(void) {
  long number;
  if (!enabled || strcmp(mode, "helper") || getpid() == main_pid) return;
  number = counter == NULL ? -1 : __sync_add_and_fetch(counter, 1);
  if (number == target) {
    if (argument > 0) syscall(SYS_kill, getpid(), (int)argument);
    syscall(SYS_exit_group, (int)-argument);
  }
}

static void set_path(int fd, const char *path) {
  if (fd < 0 || fd >= MAX_FD) return;
  free(paths[fd]);
  paths[fd] = path == NULL ? NULL : strdup(path);
}

static int do_open(int directory, const char *path, int flags, mode_t mode_) {
  int result;
  helper_step();
  if (is_tracked(path)) {
    int is_write = (flags & O_ACCMODE) != O_RDONLY
                   || flags & (O_CREAT | O_TRUNC);
    int code = enter(is_write ? "open-write" : "open-read", path,
                     flags & (O_CREAT | O_TRUNC | O_EXCL | O_APPEND),
                     is_write);
    if (code >= 0) {
      errno = code;
      return -1;
    }
    result = syscall(SYS_openat, directory, path, flags, mode_);
    set_path(result, path);
    return result;
  }
  result = syscall(SYS_openat, directory, path, flags, mode_);
  set_path(result, NULL);
  return result;
}

#define MODE_OF(flags)                                                        \
  mode_t mode_ = 0;                                                           \
  if ((flags) & (O_CREAT | O_TMPFILE)) {                                      \
    va_list arguments;                                                        \
    va_start(arguments, flags);                                               \
    mode_ = va_arg(arguments, mode_t);                                        \
    va_end(arguments);                                                        \
  }

int open(const char *path, int flags, ...) {
  MODE_OF(flags)
  return do_open(AT_FDCWD, path, flags, mode_);
}

int open64(const char *path, int flags, ...) {
  MODE_OF(flags)
  return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode_);
}

int __open64_2(const char *path, int flags) {
  return do_open(AT_FDCWD, path, flags | O_LARGEFILE, 0);
}

int openat(int directory, const char *path, int flags, ...) {
  MODE_OF(flags)
  return do_open(directory, path, flags, mode_);
}

int openat64(int directory, const char *path, int flags, ...) {
  MODE_OF(flags)
  return do_open(directory, path, flags | O_LARGEFILE, mode_);
}

ssize_t write(int fd, const void *data, size_t size) {
  const char *path = path_of(fd);
  helper_step();
  if (path != NULL) {
    int code = enter("write", path, (long)size, 1);
    if (code >= 0) {
      errno = code;
      return -1;
    }
    if (is_torn()) {
      raw_write(fd, data, (size_t)argument < size ? (size_t)argument : size);
      syscall(SYS_kill, 0, SIGKILL);
    }
    if (is_short() && size > 1)
      size = (size_t)argument < size ? (size_t)argument : size;
  }
  return raw_write(fd, data, size);
}

ssize_t pwrite64(int fd, const void *data, size_t size, off64_t offset) {
  const char *path = path_of(fd);
  if (path != NULL) {
    int code = enter("pwrite", path, (long)size, 1);
    if (code >= 0) {
      errno = code;
      return -1;
    }
  }
  return syscall(SYS_pwrite64, fd, data, size, offset);
}

ssize_t writev(int fd, const struct iovec *parts, int count) {
  const char *path = path_of(fd);
  helper_step();
  if (path != NULL) {
    int code = enter("writev", path, count, 1);
    if (code >= 0) {
      errno = code;
      return -1;
    }
  }
  return syscall(SYS_writev, fd, parts, count);
}

ssize_t read(int fd, void *data, size_t size) {
  const char *path = path_of(fd);
  helper_step();
  if (path != NULL) {
    int code = enter("read", path, (long)size, 0);
    if (code >= 0) {
      errno = code;
      return -1;
    }
  }
  return syscall(SYS_read, fd, data, size);
}

int close(int fd) {
  const char *path = path_of(fd);
  int code = -1;
  if (path != NULL) {
    code = enter("close", path, 0, 1);
    set_path(fd, NULL);
  }
  int result = syscall(SYS_close, fd);
  if (code >= 0) {
    errno = code;
    return -1;
  }
  return result;
}

#define WITH_PATH(name, path, is_write, call)                                 \
  if (is_tracked(path)) {                                                     \
    int code = enter(name, path, 0, is_write);                                \
    if (code >= 0) {                                                          \
      errno = code;                                                           \
      return -1;                                                              \
    }                                                                         \
  }                                                                           \
  return call;

int rename(const char *source, const char *destination) {
  WITH_PATH("rename", destination, 1,
            syscall(SYS_rename, source, destination))
}

int renameat(int first, const char *source, int second,
             const char *destination) {
  WITH_PATH("rename", destination, 1,
            syscall(SYS_renameat, first, source, second, destination))
}

int link(const char *source, const char *destination) {
  WITH_PATH("link", destination, 1, syscall(SYS_link, source, destination))
}

int symlink(const char *source, const char *destination) {
  WITH_PATH("symlink", destination, 1,
            syscall(SYS_symlink, source, destination))
}

int unlink(const char *path) {
  WITH_PATH("unlink", path, 1, syscall(SYS_unlink, path))
}

int unlinkat(int directory, const char *path, int flags) {
  WITH_PATH("unlink", path, 1, syscall(SYS_unlinkat, directory, path, flags))
}

int mkdir(const char *path, mode_t mode_) {
  WITH_PATH("mkdir", path, 1, syscall(SYS_mkdir, path, mode_))
}

int truncate64(const char *path, off64_t size) {
  WITH_PATH("truncate", path, 1, syscall(SYS_truncate, path, size))
}

int chmod(const char *path, mode_t mode_) {
  WITH_PATH("chmod", path, 1, syscall(SYS_chmod, path, mode_))
}

int ftruncate64(int fd, off64_t size) {
  const char *path = path_of(fd);
  WITH_PATH("ftruncate", path, 1, syscall(SYS_ftruncate, fd, size))
}

int fsync(int fd) {
  const char *path = path_of(fd);
  WITH_PATH("fsync", path, 1, syscall(SYS_fsync, fd))
}

/* reading of metadata matters for schedules only */
int stat64(const char *path, struct stat64 *result) {
  static int (*real)(const char *, struct stat64 *);
  if (real == NULL) *(void **)&real = dlsym(RTLD_NEXT, "stat64");
  if (control_in >= 0 && is_tracked(path)) enter("stat", path, 0, 0);
  return real(path, result);
}

int fstatat64(int directory, const char *path, struct stat64 *result,
              int flags) {
  static int (*real)(int, const char *, struct stat64 *, int);
  if (real == NULL) *(void **)&real = dlsym(RTLD_NEXT, "fstatat64");
  if (control_in >= 0 && is_tracked(path)) enter("stat", path, 0, 0);
  return real(directory, path, result, flags);
}

DIR *opendir(const char *path) {
  static DIR *(*real)(const char *);
  if (real == NULL) *(void **)&real = dlsym(RTLD_NEXT, "opendir");
  if (control_in >= 0 && enabled && path != NULL
      && !strncmp(path, root, strlen(root) - 1))
    enter("list", path, 0, 0);
  return real(path);
}
