/* Runs a script of C library calls: argv[1] is the script, argv[2] a
   string of dots into which results are written.  Kept to the C subset
   that MesCC compiles.  */
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <mes/lib.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
char *none_env[2];

char *resp;
char *resend;
char *resbegin;
char *tok[64];
char toks[70000];
int ntok;
long slot[100];
char *script_end;
char tmp[70000];
char *sargs[64];
int hcount[70];
int harm[70];
int hnest[70];
int hlog[300];
int hn;
int hseterr;
int atn;
char const *dirs0;

void
out_c (int c)
{
  if (resp < resend)
    {
      *resp = c;
      resp = resp + 1;
    }
}

void
out_s (char *s)
{
  while (*s)
    {
      out_c (*s);
      s = s + 1;
    }
}

void
out_n (long n)
{
  char b[40];
  int i;
  unsigned long u;
  i = 0;
  if (n < 0)
    {
      out_c ('-');
      u = 0;
      u = u - n;
    }
  else
    u = n;
  if (u == 0)
    {
      b[0] = '0';
      i = 1;
    }
  while (u != 0)
    {
      b[i] = '0' + (u % 10);
      u = u / 10;
      i = i + 1;
    }
  while (i > 0)
    {
      i = i - 1;
      out_c (b[i]);
    }
}

int
hexdig (int v)
{
  if (v < 10)
    return '0' + v;
  return 'a' + v - 10;
}

void
out_hex (char *s, long n)
{
  long i;
  int c;
  for (i = 0; i < n; i = i + 1)
    {
      c = s[i];
      c = c & 255;
      out_c (hexdig ((c >> 4) & 15));
      out_c (hexdig (c & 15));
    }
}

/* Long data: the start, the length and a checksum.  */
void
out_sum (char *s, long n)
{
  long i;
  long h;
  if (n < 101)
    out_hex (s, n);
  else
    {
      h = 7;
      for (i = 0; i < n; i = i + 1)
        h = (h * 31 + (s[i] & 255)) & 16777215;
      out_hex (s, 30);
      out_c (':');
      out_n (n);
      out_c (':');
      out_n (h);
    }
}

void
comma ()
{
  out_c (',');
}

/* An armed handler sends itself another signal, once, and notes how often
   that one was handled at once.  */
void
on_signal_kill (int s)
{
  int o;
  int n;
  int e;
  e = errno;
  o = harm[s];
  harm[s] = 0;
  n = hcount[o];
  kill (getpid (), o);
  hnest[s] = hcount[o] - n + 1;
  errno = e;
}

void
on_signal (int s)
{
  hcount[s] = hcount[s] + 1;
  if (hn < 300)
    {
      hlog[hn] = s;
      hn = hn + 1;
    }
  if (harm[s])
    on_signal_kill (s);
  if (hseterr)
    errno = 77;
}

void
on_exit_1 (void)
{
  write (slot[99], "A", 1);
}

void
on_exit_2 (void)
{
  write (slot[99], "B", 1);
}

void
on_exit_4 (void)
{
  write (slot[99], "D", 1);
  atexit (on_exit_1);
}

void
on_exit_5 (void)
{
  write (slot[99], "E", 1);
  _exit (slot[95]);
}

void
on_exit_3 (void)
{
  write (slot[99], "C", 1);
}

int
unhex (int c)
{
  if (c >= '0' && c <= '9')
    return c - '0';
  return c - 'a' + 10;
}

long
num (char *s)
{
  long n;
  int neg;
  n = 0;
  neg = 0;
  if (*s == '$')
    {
      s = s + 1;
      n = 0;
      while (*s >= '0' && *s <= '9')
        {
          n = n * 10 + *s - '0';
          s = s + 1;
        }
      return slot[n];
    }
  if (*s == '-')
    {
      neg = 1;
      s = s + 1;
    }
  while (*s >= '0' && *s <= '9')
    {
      n = n * 10 + *s - '0';
      s = s + 1;
    }
  if (neg)
    return 0 - n;
  return n;
}

/* In place: x<hex> is a byte string, p<seed>:<len> a pattern, anything
   else itself.  Returns the length.  */
long
str (char *s, char *d)
{
  long n;
  long seed;
  long i;
  n = 0;
  if (*s == 'x')
    {
      s = s + 1;
      while (*s)
        {
          d[n] = unhex (s[0]) * 16 + unhex (s[1]);
          n = n + 1;
          s = s + 2;
        }
      d[n] = 0;
      return n;
    }
  if (*s == 'p' && s[1] >= '0' && s[1] <= '9')
    {
      seed = num (s + 1);
      while (*s != ':')
        s = s + 1;
      n = num (s + 1);
      for (i = 0; i < n; i = i + 1)
        d[i] = 33 + ((seed + i * 7 + (i / 64)) % 90);
      d[n] = 0;
      return n;
    }
  while (*s)
    {
      d[n] = *s;
      n = n + 1;
      s = s + 1;
    }
  d[n] = 0;
  return n;
}

int
is (char const *s)
{
  return strcmp (tok[0], s) == 0;
}

/* Cuts the next operation out of P into tok; returns what follows.  */
char *
cut (char *p)
{
  char *q;
  ntok = 0;
  q = toks;
  while (*p == ' ' || *p == ';')
    p = p + 1;
  while (*p && *p != ';')
    {
      tok[ntok] = q;
      ntok = ntok + 1;
      while (*p && *p != ' ' && *p != ';')
        {
          *q = *p;
          q = q + 1;
          p = p + 1;
        }
      *q = 0;
      q = q + 1;
      while (*p == ' ')
        p = p + 1;
    }
  tok[ntok] = q;
  *q = 0;
  return p;
}

void
out_stat (struct stat *b)
{
  out_n (b->st_mode);
  comma ();
  out_n (b->st_size);
  comma ();
  out_n (b->st_nlink);
  comma ();
  out_n (b->st_uid);
  comma ();
  out_n (b->st_gid);
  comma ();
  out_n (b->st_mtime);
}

long
op_file (int *ok)
{
  long r;
  long n;
  long u;
  long k;
  int i;
  int st[2];
  char *a;
  char *b;
  a = tmp;
  b = tmp + 35000;
  *ok = 1;
  if (is ("open"))
    {
      str (tok[1], a);
      return open (a, num (tok[2]), num (tok[3]));
    }
  if (is ("open2"))
    {
      str (tok[1], a);
      return open (a, num (tok[2]));
    }
  if (is ("close"))
    return close (num (tok[1]));
  if (is ("read"))
    {
      r = read (num (tok[1]), a, num (tok[2]));
      n = errno;
      out_n (r);
      comma ();
      if (r < 0)
        out_n (n);
      else
        out_hex (a, r);
      *ok = 2;
      return r;
    }
  if (is ("write"))
    {
      n = str (tok[2], a);
      return write (num (tok[1]), a, n);
    }
  if (is ("lseek"))
    return lseek (num (tok[1]), num (tok[2]), num (tok[3]));
  if (is ("dup"))
    return dup (num (tok[1]));
  if (is ("dup2"))
    return dup2 (num (tok[1]), num (tok[2]));
  if (is ("fcntl"))
    return fcntl (num (tok[1]), num (tok[2]), num (tok[3]));
  if (is ("slurp"))
    {
      /* read to the end */
      u = 7;
      k = 0;
      r = 1;
      while (r > 0)
        {
          r = read (num (tok[1]), tmp, num (tok[2]));
          for (i = 0; i < r; i = i + 1)
            u = (u * 31 + (tmp[i] & 255)) & 16777215;
          if (r > 0)
            k = k + r;
        }
      n = errno;
      out_n (r);
      comma ();
      if (r < 0)
        {
          out_n (n);
          comma ();
        }
      out_n (k);
      comma ();
      out_n (u);
      *ok = 2;
      return r;
    }
  if (is ("spew"))
    {
      k = str (tok[2], tmp);
      b = tmp;
      r = 0;
      while (k > 0 && r >= 0)
        {
          n = num (tok[3]);
          if (k < n)
            n = k;
          r = write (num (tok[1]), b, n);
          if (r > 0)
            {
              b = b + r;
              k = k - r;
            }
        }
      n = errno;
      out_n (r);
      comma ();
      if (r < 0)
        {
          out_n (n);
          comma ();
        }
      out_n (k);
      *ok = 2;
      return r;
    }
  if (is ("copy"))
    {
      k = 0;
      r = 1;
      while (r > 0)
        {
          r = read (num (tok[1]), tmp, num (tok[3]));
          b = tmp;
          n = r;
          while (n > 0)
            {
              u = write (num (tok[2]), b, n);
              if (u < 0)
                {
                  n = 0;
                  r = -1;
                }
              else
                {
                  b = b + u;
                  k = k + u;
                  n = n - u;
                }
            }
        }
      n = errno;
      out_n (r);
      comma ();
      if (r < 0)
        {
          out_n (n);
          comma ();
        }
      out_n (k);
      *ok = 2;
      return r;
    }
  if (is ("pipe"))
    {
      st[0] = -9;
      st[1] = -9;
      r = pipe (st);
      n = errno;
      if (r == 0)
        {
          slot[num (tok[1])] = st[0];
          slot[num (tok[2])] = st[1];
        }
      errno = n;
      return r;
    }
  if (is ("fopen"))
    {
      str (tok[1], a);
      r = (long) fopen (a, tok[2]);
      if (r == 0)
        r = -1;
      return r;
    }
  if (is ("fdopen"))
    return (long) fdopen (num (tok[1]), tok[2]);
  if (is ("freopen"))
    {
      str (tok[1], a);
      r = (long) freopen (a, tok[2], (FILE *) num (tok[3]));
      if (r == 0)
        r = -1;
      return r;
    }
  if (is ("fclose"))
    return fclose ((FILE *) num (tok[1]));
  if (is ("fileno"))
    return fileno ((FILE *) num (tok[1]));
  if (is ("fgetc"))
    return fgetc ((FILE *) num (tok[1]));
  if (is ("getc"))
    return getc ((FILE *) num (tok[1]));
  if (is ("getchar"))
    return getchar ();
  if (is ("ungetc"))
    return ungetc (num (tok[2]), (FILE *) num (tok[1]));
  if (is ("fgets"))
    {
      memset (a, 'Z', 600);
      r = (long) fgets (a, num (tok[2]), (FILE *) num (tok[1]));
      n = errno;
      if (r == 0)
        {
          out_s ("-1,");
          out_n (n);
        }
      else
        {
          out_n (strlen (a));
          comma ();
          out_hex (a, strlen (a));
        }
      *ok = 2;
      return r;
    }
  if (is ("fread"))
    {
      r = fread (a, num (tok[2]), num (tok[3]), (FILE *) num (tok[1]));
      n = errno;
      out_n (r);
      comma ();
      if (r == 0)
        out_n (n);
      else
        out_hex (a, r * num (tok[2]));
      *ok = 2;
      return r;
    }
  if (is ("fwrite"))
    {
      str (tok[4], a);
      return fwrite (a, num (tok[2]), num (tok[3]), (FILE *) num (tok[1]));
    }
  if (is ("fputs"))
    {
      str (tok[2], a);
      return fputs (a, (FILE *) num (tok[1]));
    }
  if (is ("puts"))
    {
      str (tok[1], a);
      return puts (a);
    }
  if (is ("fputc"))
    return fputc (num (tok[2]), (FILE *) num (tok[1]));
  if (is ("putc"))
    return putc (num (tok[2]), (FILE *) num (tok[1]));
  if (is ("putchar"))
    return putchar (num (tok[1]));
  if (is ("fprintf"))
    {
      str (tok[2], a);
      return fprintf ((FILE *) num (tok[1]), "<%d:%s>", num (tok[3]), a);
    }
  if (is ("printf"))
    {
      str (tok[1], a);
      return printf ("<%d:%s>", num (tok[2]), a);
    }
  if (is ("fmtf"))
    {
      FILE *f = (FILE *) num (tok[1]);
      long k = num (tok[2]);
      long n = num (tok[3]);
      str (tok[4], a);
      if (k == 0)
        return fprintf (f, "%c|%s", n, a);
      if (k == 1)
        return fprintf (f, "%x %X %o %u", n, n, n, n);
      if (k == 2)
        return fprintf (f, "[%5d][%-5d][%05d]", n, n, n);
      if (k == 3)
        return fprintf (f, "[%10s][%-10s]%%", a, a);
      if (k == 4)
        return fprintf (f, "%.3s%%%s", a, a);
      if (k == 5)
        return fprintf (f, "%*d%s", 7, n, a);
      if (k == 6)
        return fprintf (f, "%ld%s%d%%", n, a, n);
      if (k == 7)
        return fprintf (f, "");
      return fprintf (f, "%i", n);
    }
  if (is ("fdputs"))
    {
      str (tok[2], a);
      return fdputs (a, num (tok[1]));
    }
  if (is ("fdputc"))
    return fdputc (num (tok[2]), num (tok[1]));
  if (is ("oputs"))
    {
      str (tok[1], a);
      return oputs (a);
    }
  if (is ("oputc"))
    return oputc (num (tok[1]));
  if (is ("fseek"))
    return fseek ((FILE *) num (tok[1]), num (tok[2]), num (tok[3]));
  if (is ("ftell"))
    return ftell ((FILE *) num (tok[1]));
  if (is ("feof"))
    return feof ((FILE *) num (tok[1]));
  if (is ("ferror"))
    return ferror ((FILE *) num (tok[1]));
  if (is ("clearerr"))
    {
      clearerr ((FILE *) num (tok[1]));
      return 0;
    }
  if (is ("fflush"))
    return fflush ((FILE *) num (tok[1]));
  if (is ("fsync"))
    return fsync (num (tok[1]));
  if (is ("access"))
    {
      str (tok[1], a);
      return access (a, num (tok[2]));
    }
  if (is ("mkdir"))
    {
      str (tok[1], a);
      return mkdir (a, num (tok[2]));
    }
  if (is ("rmdir"))
    {
      str (tok[1], a);
      return rmdir (a);
    }
  if (is ("unlink"))
    {
      str (tok[1], a);
      return unlink (a);
    }
  if (is ("remove"))
    {
      str (tok[1], a);
      return remove (a);
    }
  if (is ("rename"))
    {
      str (tok[1], a);
      str (tok[2], b);
      return rename (a, b);
    }
  if (is ("link"))
    {
      str (tok[1], a);
      str (tok[2], b);
      return link (a, b);
    }
  if (is ("symlink"))
    {
      str (tok[1], a);
      str (tok[2], b);
      return symlink (a, b);
    }
  if (is ("readlink"))
    {
      str (tok[1], a);
      memset (b, 'Z', 320);
      r = readlink (a, b, num (tok[2]));
      n = errno;
      out_n (r);
      comma ();
      if (r < 0)
        out_n (n);
      else
        {
          out_hex (b, r);
          if (b[num (tok[2])] != 'Z')
            out_s ("OVER");
        }
      *ok = 2;
      return r;
    }
  if (is ("chdir"))
    {
      str (tok[1], a);
      return chdir (a);
    }
  if (is ("getcwd"))
    {
      n = num (tok[1]);
      memset (b, 'Z', 600);
      errno = 0;
      r = (long) getcwd (b, n);
      if (r == 0)
        {
          n = errno;
          out_s ("-1,");
          out_n (n);
        }
      else
        {
          out_n (r == (long) b);
          comma ();
          a = (char *) r;
          out_hex (a, strlen (a));
          if (n > 0 && b[n] != 'Z')
            out_s ("OVER");
        }
      *ok = 2;
      return r;
    }
  if (is ("getcwd0"))
    {
      errno = 0;
      r = (long) getcwd (0, num (tok[1]));
      n = errno;
      if (r == 0)
        {
          out_s ("-1,");
          out_n (n);
        }
      else
        {
          out_s ("1,");
          a = (char *) r;
          out_hex (a, strlen (a));
        }
      *ok = 2;
      return r;
    }
  if (is ("chmod"))
    {
      str (tok[1], a);
      return chmod (a, num (tok[2]));
    }
  if (is ("mknod"))
    {
      str (tok[1], a);
      return mknod (a, num (tok[2]), num (tok[3]));
    }
  if (is ("isatty"))
    return isatty (num (tok[1]));
  if (is ("ioctl"))
    return ioctl (num (tok[1]), num (tok[2]), tmp);
  *ok = 0;
  return 0;
}

long
op_sys (int *ok)
{
  long r;
  long n;
  long i;
  char *a;
  char *b;
  char *c;
  struct stat *sb;
  struct dirent *de;
  struct timeval tv;
  struct timespec ts;
  struct timespec tr;
  struct itimerval it;
  struct itimerval io;
  struct rusage *ru;
  struct tm *ptm;
  int st[2];
  a = tmp;
  b = tmp + 35000;
  *ok = 1;
  if (is ("stat") || is ("lstat") || is ("fstat"))
    {
      memset (b, 'Z', 1000);
      sb = (struct stat *) b;
      str (tok[1], a);
      if (is ("stat"))
        r = stat (a, sb);
      else if (is ("lstat"))
        r = lstat (a, sb);
      else
        r = fstat (num (tok[1]), sb);
      n = errno;
      out_n (r);
      comma ();
      if (r < 0)
        out_n (n);
      else
        {
          out_stat (sb);
          for (i = sizeof (struct stat); i < 1000; i = i + 1)
            if (b[i] != 'Z')
              {
                out_s ("OVER");
                i = 1000;
              }
        }
      *ok = 2;
      return r;
    }
  if ((is ("readdir") || is ("readall") || is ("closedir")) && num (tok[1]) < 1)
    {
      errno = 0;
      return -3;
    }
  if (is ("opendir"))
    {
      str (tok[1], a);
      r = (long) opendir (a);
      if (r == 0)
        r = -1;
      return r;
    }
  if (is ("readdir"))
    {
      errno = 0;
      de = readdir ((DIR *) num (tok[1]));
      n = errno;
      if (de == 0)
        {
          out_s ("-1,");
          out_n (n);
        }
      else
        {
          out_n (de->d_ino);
          comma ();
          out_hex (de->d_name, strlen (de->d_name));
        }
      *ok = 2;
      return 0;
    }
  if (is ("readall"))
    {
      r = 0;
      errno = 0;
      de = readdir ((DIR *) num (tok[1]));
      while (de != 0 && r < num (tok[2]))
        {
          out_hex (de->d_name, strlen (de->d_name));
          out_c ('/');
          r = r + 1;
          errno = 0;
          if (r < num (tok[2]))
            de = readdir ((DIR *) num (tok[1]));
        }
      n = errno;
      if (de == 0)
        {
          out_s ("-1,");
          out_n (n);
        }
      *ok = 2;
      return 0;
    }
  if (is ("closedir"))
    return closedir ((DIR *) num (tok[1]));
  if (is ("getpid"))
    return getpid ();
  if (is ("getppid"))
    return getppid ();
  if (is ("getuid"))
    return getuid ();
  if (is ("geteuid"))
    return geteuid ();
  if (is ("getgid"))
    return getgid ();
  if (is ("getegid"))
    return getegid ();
  if (is ("setuid"))
    return setuid (num (tok[1]));
  if (is ("setgid"))
    return setgid (num (tok[1]));
  if (is ("getrusage"))
    {
      memset (b, 'Z', 1000);
      ru = (struct rusage *) b;
      r = getrusage (num (tok[1]), ru);
      if (r == 0)
        {
          out_s ("0,");
          out_n (ru->ru_utime.tv_sec);
          comma ();
          out_n (ru->ru_utime.tv_usec);
          *ok = 2;
        }
      return r;
    }
  if (is ("time"))
    {
      slot[98] = -5;
      r = time ((time_t *) &slot[98]);
      out_n (r);
      comma ();
      out_n (slot[98]);
      *ok = 2;
      return r;
    }
  if (is ("time0"))
    return time (0);
  if (is ("gettimeofday"))
    {
      tv.tv_sec = -5;
      tv.tv_usec = -5;
      r = gettimeofday (&tv, 0);
      n = errno;
      out_n (r);
      comma ();
      if (r < 0)
        out_n (n);
      else
        {
          out_n (tv.tv_sec);
          comma ();
          out_n (tv.tv_usec);
        }
      *ok = 2;
      return r;
    }
  if (is ("clock_gettime"))
    {
      ts.tv_sec = -5;
      ts.tv_nsec = -5;
      r = clock_gettime (num (tok[1]), &ts);
      n = errno;
      out_n (r);
      comma ();
      if (r < 0)
        out_n (n);
      else
        {
          out_n (ts.tv_sec);
          comma ();
          out_n (ts.tv_nsec);
        }
      *ok = 2;
      return r;
    }
  if (is ("sleep"))
    return sleep (num (tok[1]));
  if (is ("nanosleep"))
    {
      ts.tv_sec = num (tok[1]);
      ts.tv_nsec = num (tok[2]);
      tr.tv_sec = -5;
      tr.tv_nsec = -5;
      r = nanosleep (&ts, &tr);
      n = errno;
      out_n (r);
      comma ();
      if (r < 0)
        {
          out_n (n);
          comma ();
          out_n (tr.tv_sec);
          comma ();
          out_n (tr.tv_nsec);
        }
      *ok = 2;
      return r;
    }
  if (is ("alarm"))
    return alarm (num (tok[1]));
  if (is ("setitimer"))
    {
      it.it_interval.tv_sec = num (tok[3]);
      it.it_interval.tv_usec = num (tok[4]);
      it.it_value.tv_sec = num (tok[1]);
      it.it_value.tv_usec = num (tok[2]);
      io.it_value.tv_sec = -5;
      io.it_value.tv_usec = -5;
      r = setitimer (ITIMER_REAL, &it, &io);
      n = errno;
      out_n (r);
      comma ();
      if (r < 0)
        out_n (n);
      else
        {
          out_n (io.it_value.tv_sec);
          comma ();
          out_n (io.it_value.tv_usec);
        }
      *ok = 2;
      return r;
    }
  if (is ("setenv"))
    {
      str (tok[1], a);
      str (tok[2], b);
      return setenv (a, b, num (tok[3]));
    }
  if (is ("unsetenv"))
    {
      str (tok[1], a);
      unsetenv (a);
      return 0;
    }
  if (is ("getenv"))
    {
      str (tok[1], a);
      c = getenv (a);
      if (c == 0)
        out_s ("-1");
      else
        {
          out_s ("0,");
          out_sum (c, strlen (c));
        }
      *ok = 2;
      return 0;
    }
  if (is ("envnew"))
    {
      none_env[0] = 0;
      none_env[1] = (char *) none_env;
      environ = none_env;
      return 0;
    }
  if (is ("envguard"))
    return none_env[0] == 0 && (none_env[1] == 0 || none_env[1] == (char *) none_env);
  if (is ("environ"))
    {
      for (i = 0; environ[i] != 0; i = i + 1)
        {
          out_sum (environ[i], strlen (environ[i]));
          out_c ('/');
        }
      *ok = 2;
      return 0;
    }
  if (is ("errno"))
    return errno;
  if (is ("seterrno"))
    {
      errno = num (tok[1]);
      return 0;
    }
  *ok = 0;
  return 0;
}

long
op_mem (int *ok)
{
  long r;
  long n;
  long i;
  long seed;
  char *p;
  char *q;
  *ok = 1;
  if (is ("realloc") || is ("free") || is ("fill") || is ("check") || is ("zero") || is ("peek") || is ("sum"))
    {
      r = num (tok[1]);
      if (r == -1 || r == -3 || (r == 0 && is ("realloc") == 0 && is ("free") == 0))
        return -3;
    }
  if (is ("malloc"))
    {
      r = (long) malloc (num (tok[1]));
      if (r == 0)
        return -1;
      return r;
    }
  if (is ("calloc"))
    {
      r = (long) calloc (num (tok[1]), num (tok[2]));
      if (r == 0)
        return -1;
      return r;
    }
  if (is ("realloc"))
    {
      r = (long) realloc ((char *) num (tok[1]), num (tok[2]));
      if (r == 0)
        return -1;
      return r;
    }
  if (is ("free"))
    {
      free ((char *) num (tok[1]));
      return 0;
    }
  if (is ("strdup"))
    {
      str (tok[1], tmp);
      r = (long) strdup (tmp);
      if (r == 0)
        return -1;
      return r;
    }
  if (is ("sbrk"))
    return (long) sbrk (num (tok[1]));
  if (is ("fill"))
    {
      p = (char *) num (tok[1]);
      n = num (tok[2]);
      seed = num (tok[3]);
      for (i = 0; i < n; i = i + 1)
        p[i] = seed + i * 11 + (i / 97);
      return 0;
    }
  if (is ("check"))
    {
      p = (char *) num (tok[1]);
      n = num (tok[2]);
      seed = num (tok[3]);
      for (i = 0; i < n; i = i + 1)
        if ((p[i] & 255) != ((seed + i * 11 + (i / 97)) & 255))
          return i;
      return -1;
    }
  if (is ("zero"))
    {
      p = (char *) num (tok[1]);
      n = num (tok[2]);
      for (i = 0; i < n; i = i + 1)
        if (p[i] != 0)
          return i;
      return -1;
    }
  if (is ("peek") || is ("sum"))
    {
      p = (char *) num (tok[1]);
      out_s ("0,");
      if (is ("peek"))
        out_hex (p, num (tok[2]));
      else
        out_sum (p, num (tok[2]));
      *ok = 2;
      return 0;
    }
  *ok = 0;
  return 0;
}

long
op_sig (int *ok)
{
  long r;
  long n;
  long i;
  unsigned long u;
  sigset_t set;
  sigset_t old;
  struct sigaction act;
  struct sigaction oact;
  struct timespec ts;
  *ok = 1;
  if (is ("signal"))
    {
      n = num (tok[2]);
      if (n == 2)
        n = (long) &on_signal;
#if __MESC__
      r = (long) signal (num (tok[1]), (void *) n);
#else
      r = (long) signal (num (tok[1]), (sighandler_t) n);
#endif
      i = errno;
      if (r == (long) &on_signal)
        r = 2;
      errno = i;
      return r;
    }
  if (is ("raise"))
    return raise (num (tok[1]));
  if (is ("kill"))
    return kill (num (tok[1]), num (tok[2]));
  if (is ("abort"))
    {
      abort ();
      return 0;
    }
  if (is ("block") || is ("unblock") || is ("setmask"))
    {
      memset (&set, 0, sizeof (set));
      memset (&old, 0, sizeof (old));
      u = num (tok[1]);
      set.items[0] = u;
      n = 0;
      if (is ("unblock"))
        n = 1;
      if (is ("setmask"))
        n = 2;
      r = sigprocmask (n, &set, &old);
      if (r == 0)
        {
          out_s ("0,");
          u = old.items[0];
          out_n (u);
          *ok = 2;
        }
      return r;
    }
  if (is ("hseterr"))
    {
      hseterr = num (tok[1]);
      return 0;
    }
  if (is ("hlog"))
    {
      out_n (hn);
      for (i = 0; i < hn; i = i + 1)
        {
          comma ();
          out_n (hlog[i]);
        }
      *ok = 2;
      return 0;
    }
  if (is ("hcount"))
    return hcount[num (tok[1])];
  if (is ("hkill"))
    {
      harm[num (tok[1])] = num (tok[2]);
      return 0;
    }
  if (is ("hnest"))
    {
      n = hnest[num (tok[1])];
      hnest[num (tok[1])] = 0;
      return n;
    }
  if (is ("work"))
    {
      n = num (tok[1]);
      u = num (tok[2]);
      for (i = 0; i < n; i = i + 1)
        {
          u = u * 31 + i;
          u = u ^ (u >> 7);
          u = u & 1048575;
        }
      r = u;
      return r;
    }
  if (is ("waithandler"))
    {
      n = num (tok[1]);
      i = 0;
      while (hcount[n] < num (tok[2]) && i < num (tok[3]))
        {
          ts.tv_sec = 0;
          ts.tv_nsec = 1000000;
          nanosleep (&ts, 0);
          i = i + 1;
        }
      return hcount[n];
    }
  *ok = 0;
  return 0;
}

char *run (char *p, int child);

/* exec FUNCTION PATH ARGS...: an argument of the form @N is a script of
   that number of dots (a result buffer for the new program).  */
long
op_exec ()
{
  int i;
  int n;
  long k;
  char *q;
  char *f;
  q = tmp;
  n = 0;
  f = q;
  q = q + str (tok[2], q) + 1;
  for (i = 3; tok[i] && i < ntok; i = i + 1)
    {
      sargs[n] = q;
      n = n + 1;
      if (*tok[i] == '@')
        {
          k = num (tok[i] + 1);
          memset (q, '.', k);
          q[k] = 0;
          q = q + k + 1;
        }
      else
        q = q + str (tok[i], q) + 1;
    }
  sargs[n] = 0;
  if (strcmp (tok[1], "execv") == 0)
    return execv (f, sargs);
  if (strcmp (tok[1], "execve") == 0)
    return execve (f, sargs, environ);
  if (strcmp (tok[1], "execvp") == 0)
    return execvp (f, sargs);
  if (strcmp (tok[1], "execl") == 0)
    {
      if (n == 0)
        return execl (f, 0);
      if (n == 1)
        return execl (f, sargs[0], 0);
      if (n == 2)
        return execl (f, sargs[0], sargs[1], 0);
      if (n == 3)
        return execl (f, sargs[0], sargs[1], sargs[2], 0);
      if (n == 4)
        return execl (f, sargs[0], sargs[1], sargs[2], sargs[3], 0);
      return execl (f, sargs[0], sargs[1], sargs[2], sargs[3], sargs[4], 0);
    }
  if (n == 1)
    return execlp (f, sargs[0], 0);
  if (n == 2)
    return execlp (f, sargs[0], sargs[1], 0);
  if (n == 3)
    return execlp (f, sargs[0], sargs[1], sargs[2], 0);
  if (n == 4)
    return execlp (f, sargs[0], sargs[1], sargs[2], sargs[3], 0);
  return execlp (f, sargs[0], sargs[1], sargs[2], sargs[3], sargs[4], 0);
}

void
emit (char *name)
{
  int fd;
  long n;
  long r;
  char *p;
  str (name, tmp);
  fd = open (tmp, 0102 | 02000, 0666);
  p = resbegin;
  n = resp - resbegin;
  while (n > 0)
    {
      r = write (fd, p, n);
      if (r <= 0)
        n = 0;
      else
        {
          p = p + r;
          n = n - r;
        }
    }
  close (fd);
}

int g_argc;
char **g_argv;

char *
run (char *p, int child)
{
  long r;
  long e;
  int ok;
  int into;
  int depth;
  int status;
  int i;
  char *t;
  while (*p)
    {
      p = cut (p);
      if (ntok == 0)
        return p;
      into = -1;
      if (*tok[0] == '=')
        {
          into = num (tok[0] + 1);
          for (i = 0; i < ntok; i = i + 1)
            tok[i] = tok[i + 1];
          ntok = ntok - 1;
        }
      if (is ("child"))
        {
          /* the parent skips to the matching end */
          r = fork ();
          e = errno;
          if (r == 0)
            {
              resp = resbegin;
              for (i = 0; i < 70; i = i + 1)
                {
                  hcount[i] = 0;
                  harm[i] = 0;
                  hnest[i] = 0;
                }
              hn = 0;
              run (p, 1);
              _exit (99);
            }
          depth = 1;
          while (*p && depth > 0)
            {
              p = cut (p);
              if (is ("end"))
                depth = depth - 1;
              t = tok[0];
              if (*t == '=' && ntok > 1)
                t = tok[1];
              if (strcmp (t, "child") == 0)
                depth = depth + 1;
            }
          if (into >= 0)
            slot[into] = r;
          out_n (r);
          if (r < 0)
            {
              comma ();
              out_n (e);
            }
          out_c (';');
        }
      else if (is ("end"))
        return p;
      else if (is ("exit"))
        {
          exit (num (tok[1]));
        }
      else if (is ("_exit"))
        {
          _exit (num (tok[1]));
        }
      else if (is ("return"))
        {
          slot[97] = num (tok[1]);
          slot[96] = 1;
          return p;
        }
      else if (is ("emit"))
        emit (tok[1]);
      else if (is ("crash"))
        {
          *(int *) 0 = 1;
        }
      else if (is ("atexit"))
        {
          r = -2;
          i = num (tok[1]);
          if (i == 1)
            r = atexit (on_exit_1);
          if (i == 2)
            r = atexit (on_exit_2);
          if (i == 3)
            r = atexit (on_exit_3);
          if (i == 4)
            r = atexit (on_exit_4);
          if (i == 5)
            r = atexit (on_exit_5);
          out_n (r);
          out_c (';');
        }
      else if (is ("waitall"))
        {
          i = 0;
          e = 0;
          while (e != 10 && i < 200)
            {
              status = -7;
              r = wait (&status);
              e = errno;
              if (r >= 0)
                e = 0;
              out_n (r);
              comma ();
              if (r < 0)
                out_n (e);
              else
                out_n (status);
              comma ();
              i = i + 1;
            }
          out_c (';');
        }
      else if (is ("wait") || is ("waitpid"))
        {
          status = -7;
          if (is ("wait"))
            r = wait (&status);
          else
            r = waitpid (num (tok[1]), &status, num (tok[2]));
          e = errno;
          if (into >= 0)
            slot[into] = r;
          out_n (r);
          comma ();
          if (r < 0)
            out_n (e);
          else
            out_n (status);
          out_c (';');
        }
      else if (is ("exec"))
        {
          r = op_exec ();
          e = errno;
          out_n (r);
          comma ();
          out_n (e);
          out_c (';');
        }
      else if (is ("args"))
        {
          out_n (g_argc);
          for (i = 0; i < g_argc; i = i + 1)
            if (i != 1 && i != 2)
              {
                comma ();
                out_hex (g_argv[i], strlen (g_argv[i]));
              }
          out_c (';');
        }
      else
        {
          ok = 0;
          r = op_file (&ok);
          if (ok == 0)
            r = op_sys (&ok);
          if (ok == 0)
            r = op_mem (&ok);
          if (ok == 0)
            r = op_sig (&ok);
          e = errno;
          if (ok == 0)
            out_s ("BADOP");
          if (ok == 1)
            {
              out_n (r);
              if (r < 0)
                {
                  comma ();
                  out_n (e);
                }
            }
          if (into >= 0)
            slot[into] = r;
          out_c (';');
        }
      if (slot[96])
        return p;
    }
  return p;
}

int
main (int argc, char **argv)
{
  g_argc = argc;
  g_argv = argv;
  if (argc < 3)
    return 98;
  slot[99] = 1;
  resbegin = argv[2];
  resp = resbegin;
  resend = resbegin + strlen (resbegin);
  run (argv[1], 0);
  return slot[97];
}
