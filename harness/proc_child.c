/* What the processes under test do: one action after the other (see spec/Process.tla). */
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>

static void put(int fd, char const* t, size_t n)
{
  while(n > 0)
    {
    ssize_t k = write(fd, t, n);
    if(k <= 0) { return; }
    t += k;
    n -= (size_t)k;
    }
}
static void record(void)
{
  char const* f = getenv("VP_PIDS");
  char t[32];
  int d = f ? open(f, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644) : -1;
  if(d < 0) { return; }
  put(d, t, (size_t)sprintf(t, "%d\n", (int)getpid()));
  close(d);
}
static void many(int fd, int n)
{
  char b[1000];
  int i;
  for(i = 0; i < 1000; ++i) { b[i] = (char)('0' + i % 10); }
  for(; n > 0; n -= 1000) { put(fd, b, n < 1000 ? (size_t)n : 1000); }
}
int main(int argc, char** argv)
{
  int i, j;
  struct rlimit none = { 0, 0 };
  setrlimit(RLIMIT_CORE, &none);
  /* nothing stays for ever */
  alarm(40);
  /* which descriptors it was started with */
  char fds[256] = "";
  for(j = 0; j < 64; ++j)
    {
    if(fcntl(j, F_GETFD) >= 0) { sprintf(fds + strlen(fds), "%s%d", fds[0] ? "," : "", j); }
    }
  signal(SIGPIPE, SIG_IGN);
  record();
  for(i = 1; i < argc; ++i)
    {
    char const* a = argv[i];
    char b[4096];
    ssize_t n;
    if(!strncmp(a, "o=", 2)) { put(1, a + 2, strlen(a + 2)); }
    else if(!strncmp(a, "e=", 2)) { put(2, a + 2, strlen(a + 2)); }
    else if(!strncmp(a, "O=", 2)) { many(1, atoi(a + 2)); }
    else if(!strncmp(a, "E=", 2)) { many(2, atoi(a + 2)); }
    else if(!strcmp(a, "cat")) { while((n = read(0, b, sizeof b)) > 0) { put(1, b, (size_t)n); } }
    else if(!strcmp(a, "drain")) { while(read(0, b, sizeof b) > 0) {} }
    else if(!strcmp(a, "cwd")) { if(getcwd(b, sizeof b)) { char* s = strrchr(b, '/') + 1; put(1, s, strlen(s)); } }
    else if(!strcmp(a, "fds")) { put(1, fds, strlen(fds)); }
    else if(!strcmp(a, "args")) { for(++i; i < argc; ++i) { put(1, argv[i], strlen(argv[i])); put(1, "|", 1); } }
    else if(!strncmp(a, "x=", 2)) { _exit(atoi(a + 2)); }
    else if(!strncmp(a, "k=", 2)) { signal(atoi(a + 2), SIG_DFL); kill(getpid(), atoi(a + 2)); for(;;) { pause(); } }
    else if(!strcmp(a, "hang")) { for(;;) { pause(); } }
    else if(!strncmp(a, "nap=", 4)) { usleep((useconds_t)atoi(a + 4) * 1000); }
    else if(!strcmp(a, "close")) { close(1); close(2); }
    else if(!strcmp(a, "brood")) { if(fork() == 0) { alarm(40); record(); if(fork() == 0) { alarm(40); record(); } for(;;) { pause(); } } }
    else if(!strcmp(a, "kid")) { if(fork() == 0) { alarm(40); record(); for(;;) { pause(); } } }
    else { return 99; }
    }
  return 0;
}
