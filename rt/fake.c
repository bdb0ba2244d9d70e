/* Stand-in for the tools smlrcc invokes: logs its arguments, makes its output, fails on demand.
   FAKE_LOG: log (records "argc\n" then NUL-terminated arguments). FAKE_CNT: one byte per invocation.
   FAKE_FAIL: "index mode": index of the invocation to fail; mode n: no output, p: partial output, c: complete output,
   all exit 1; x: exit 255 without output; k: dies of SIGKILL after partial output; z: exit 2. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
static char buf[1 << 20];
int main(int argc, char** argv)
{
  const char* log = getenv("FAKE_LOG");
  const char* cnt = getenv("FAKE_CNT");
  const char* fail = getenv("FAKE_FAIL");
  const char* out = NULL;
  const char* base = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
  size_t n = 0;
  int i, fd, idx = 0, mode = 0;
  struct stat st;
  if (log)
  {
    n += sprintf(buf, "%d\n", argc);
    n += sprintf(buf + n, "%s", base) + 1;
    for (i = 1; i < argc && n + strlen(argv[i]) + 2 < sizeof buf; i++)
      n += sprintf(buf + n, "%s", argv[i]) + 1;
    fd = open(log, O_WRONLY | O_APPEND | O_CREAT, 0666);
    if (fd < 0 || write(fd, buf, n) != (ssize_t)n) return 77;
    close(fd);
  }
  if (cnt)
  {
    fd = open(cnt, O_WRONLY | O_APPEND | O_CREAT, 0666);
    if (fd < 0 || fstat(fd, &st) || write(fd, "x", 1) != 1) return 77;
    idx = (int)st.st_size;
    close(fd);
  }
  if (fail && atoi(fail) == idx)
    mode = strchr(fail, ' ')[1];
  if (!strncmp(base, "chmod", 5))
    return mode ? 1 : chmod(argv[argc - 1], 0755) != 0;
  if (!strcmp(base, "smlrc") || !strcmp(base, "smlrc.exe"))
    out = argv[argc - 1];
  else
    for (i = 1; i + 1 < argc; i++)
      if (!strcmp(argv[i], "-o"))
        out = argv[i + 1];
  if (mode == 'n') return 1;
  if (mode == 'x') return 255;
  if (mode == 'z') return 2;
  if (!out) return 78;
  fd = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0666);
  if (fd < 0) return 1;
  n = sprintf(buf, "%s", mode == 'p' || mode == 'k' ? "partial" : "");
  if (!n) n = snprintf(buf, sizeof buf, "made by %s %d\n", base, idx);
  if (write(fd, buf, n) != (ssize_t)n) return 77;
  close(fd);
  if (mode == 'k') raise(SIGKILL);
  return mode != 0;
}
