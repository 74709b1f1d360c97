// Conformance harness for the process execution of the bundled kwsys (C31).
// argv[1]: the program the processes under test run (proc_child.c).
// Signals sent by the library only reach those processes: everything else is only counted.
#include "hcommon.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <kwsys/Process.h>
#if __has_include(<sanitizer/common_interface_defs.h>)
#include <sanitizer/common_interface_defs.h>
#endif
using hc::args_t;
using hc::ev;

static std::string prog, base;
// (a name that looks like the rest of its line in /proc)
static char const* const CHILD = "pr) S 1 (c";
static int stray = 0, failforks = -1;
static bool frozen = false;
static long now_ms = 0;
static pid_t self_pid = 0;

struct proc
{
  kwsysProcess* p = nullptr;
  std::string pids;          // file the processes of the last run record themselves in
  std::vector< pid_t > kids; // what the last run forked
  int nat[3][2] = { { -1, -1 }, { -1, -1 }, { -1, -1 } };
  std::string file[3], wd;
  long sharedAt[3] = { 0, 0, 0 };
  bool det = false; // the last run was detached
};
static proc P[8];
static int cur = -1;           // the object worked on
static std::vector< pid_t >* forked = nullptr;
static std::set< std::string > pidfiles;
static int runs = 0;

static std::string comm( pid_t p )
{
  std::ifstream f( "/proc/" + std::to_string( p ) + "/comm" );
  std::string s;
  std::getline( f, s );
  return s;
}
static char pstate( pid_t p )
{
  std::ifstream f( "/proc/" + std::to_string( p ) + "/stat" );
  std::string s;
  std::getline( f, s );
  size_t q = s.rfind( ')' );
  return q == std::string::npos || q + 2 >= s.size() ? 0 : s[q + 2];
}
static pid_t parent( pid_t p )
{
  std::ifstream f( "/proc/" + std::to_string( p ) + "/stat" );
  std::string s;
  std::getline( f, s );
  size_t q = s.rfind( ')' );
  int r = 0;
  return q == std::string::npos || sscanf( s.c_str() + q + 1, " %*c %d", &r ) != 1 ? 0 : r;
}
// one of the programs, or a child that did not get that far
static bool ours( pid_t p ) { return p > 1 && p != self_pid && ( comm( p ) == CHILD || parent( p ) == self_pid ); }

extern "C" int kill( pid_t p, int sig ) noexcept
{
  typedef int ( *fn )( pid_t, int );
  static fn real = (fn) dlsym( RTLD_NEXT, "kill" );
  // never further than the processes under test
  bool const group = p < -1;
  pid_t const q = group ? -p : p;
  if( q > 1 && q != self_pid && ours( q ) ) { return real( p, sig ); }
  // a detached process is not a child: when it is gone nobody tells
  if( !( cur >= 0 && cur < 8 && P[cur].det && q > 1 && q != self_pid && real( q, 0 ) != 0 ) ) { ++stray; }
  errno = ESRCH;
  return -1;
}
extern "C" pid_t fork( void ) noexcept
{
  typedef pid_t ( *fn )( void );
  static fn real = (fn) dlsym( RTLD_NEXT, "fork" );
  if( failforks >= 0 && failforks-- == 0 ) { errno = EAGAIN; return -1; }
  pid_t const r = real();
  if( r > 0 && forked ) { forked->push_back( r ); }
  return r;
}
extern "C" int gettimeofday( struct timeval* tv, void* ) noexcept
{
  if( frozen )
  {
    tv->tv_sec = 5000 + now_ms / 1000;
    tv->tv_usec = ( now_ms % 1000 ) * 1000;
    return 0;
  }
  struct timespec t;
  clock_gettime( CLOCK_REALTIME, &t );
  tv->tv_sec = t.tv_sec;
  tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}

static void onchld( int ) {}
static void onint( int ) {}
static void onterm( int ) {}
static void onalrm( int ) {}
static void onwatch( int )
{
  static char const m[] = "operation does not end\n";
  (void) !write( 2, m, sizeof m - 1 );
  _exit( 97 );
}
static timer_t watch;
static void arm( int s )
{
  struct itimerspec t;
  memset( &t, 0, sizeof t );
  t.it_value.tv_sec = s;
  timer_settime( watch, 0, &t, nullptr );
}
static void handle( int sig, void ( *h )( int ) )
{
  struct sigaction a;
  memset( &a, 0, sizeof a );
  a.sa_handler = h;
  sigaction( sig, &a, nullptr );
}
static bool handled( int sig, void ( *h )( int ) )
{
  struct sigaction a;
  sigaction( sig, nullptr, &a );
  return a.sa_handler == h;
}
static int openfds()
{
  int n = 0;
  for( int i = 3; i < 200; ++i ) { n += fcntl( i, F_GETFD ) >= 0; }
  return n;
}
static int fds0 = 0;
static void tick( bool on )
{
  struct itimerval t;
  memset( &t, 0, sizeof t );
  if( on ) { t.it_interval.tv_usec = t.it_value.tv_usec = 700; }
  setitimer( ITIMER_REAL, &t, nullptr );
}

static char const* const states[] = { "Starting", "Error", "Exception", "Executing", "Exited", "Expired", "Killed", "Disowned" };
static char const* const excs[] = { "None", "Fault", "Illegal", "Interrupt", "Numerical", "Other" };
static std::string cwdname()
{
  char b[4096];
  if( !getcwd( b, sizeof b ) ) { return "?"; }
  std::string s = b;
  return s.substr( s.rfind( '/' ) + 1 );
}
static void report( int i, ev& e )
{
  kwsysProcess* p = i < 8 ? P[i].p : nullptr;
  e.i( "i", i );
  if( p )
  {
    int const s = kwsysProcess_GetState( p );
    e.s( "st", s >= 0 && s < 8 ? states[s] : "?" );
    if( s == kwsysProcess_State_Exited )
    {
      int const c = kwsysProcess_GetExitCode( p );
      e.i( "v", kwsysProcess_GetExitValue( p ) ).t( "raw", WIFEXITED( c ) && WEXITSTATUS( c ) == kwsysProcess_GetExitValue( p ) );
    }
    if( s == kwsysProcess_State_Exception )
    {
      int const x = kwsysProcess_GetExitException( p ), c = kwsysProcess_GetExitCode( p );
      e.s( "exc", x >= 0 && x < 6 ? excs[x] : "?" ).s( "str", kwsysProcess_GetExceptionString( p ) ).i( "sig", WIFSIGNALED( c ) ? WTERMSIG( c ) : -1 );
    }
    if( s == kwsysProcess_State_Error ) { e.s( "msg", kwsysProcess_GetErrorString( p ) ); }
  }
  else { e.s( "st", "gone" ); }
  e.s( "cwd", cwdname() );
}
static void closepair( int* p )
{
  for( int k = 0; k < 2; ++k )
  {
    if( p[k] >= 0 ) { close( p[k] ); }
    p[k] = -1;
  }
}
static std::string readfile( std::string const& f, long at = 0 )
{
  std::ifstream in( f.c_str(), std::ios::binary );
  if( !in ) { return "(none)"; }
  in.seekg( at );
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}
static std::vector< pid_t > recorded( int i )
{
  std::vector< pid_t > v;
  std::ifstream f( P[i].pids.c_str() );
  int p;
  while( f >> p ) { v.push_back( p ); }
  return v;
}
static int alive( int i )
{
  int n = 0;
  for( pid_t p : recorded( i ) )
  {
    char const s = pstate( p );
    n += s && s != 'Z' && s != 'X' && comm( p ) == CHILD;
  }
  return n;
}
static void mkpipe( int* p )
{
  if( pipe2( p, O_CLOEXEC ) ) { _exit( 96 ); }
}
static void put( std::string const& f, std::string const& t )
{
  std::ofstream o( f.c_str() );
  o << t;
}
static void sleep_ms( long ms )
{
  struct timespec t = { ms / 1000, ( ms % 1000 ) * 1000000 };
  while( nanosleep( &t, &t ) < 0 && errno == EINTR ) {}
}
static void cleanup_children()
{
  typedef int ( *fn )( pid_t, int );
  for( std::string const& f : pidfiles )
  {
    std::ifstream in( f.c_str() );
    int p;
    while( in >> p ) { if( ours( p ) ) { ( (fn) dlsym( RTLD_NEXT, "kill" ) )( p, SIGKILL ); } }
  }
  pidfiles.clear();
}
static double* limit( std::string const& t, double& d )
{
  if( t == "none" ) { return nullptr; }
  d = atof( t.c_str() ) / 1000.0;
  return &d;
}
static void left( ev& e, double given, double* d )
{
  if( d ) { e.s( "left", *d == 0 ? "zero" : *d < 0 ? "less" : *d <= given ? "some" : "more" ); }
  else { e.s( "left", "" ); }
}

int main( int argc, char** argv )
{
  if( argc < 5 ) { return 2; }
  prog = argv[1];
  self_pid = getpid();
  hc::runner R;
  signal( SIGPIPE, SIG_DFL );
  struct sigevent se;
  memset( &se, 0, sizeof se );
  se.sigev_notify = SIGEV_SIGNAL;
  se.sigev_signo = SIGRTMIN + 3;
  timer_create( CLOCK_MONOTONIC, &se, &watch );
  handle( SIGRTMIN + 3, onwatch );
  handle( SIGALRM, onalrm );
  setlinebuf( stdout );
  int nreset = 0;
  R.on_reset = [&] {
    tick( false );
    for( proc& p : P )
    {
      // leave what the script left behind to the end of the process
      for( int k = 0; k < 3; ++k ) { closepair( p.nat[k] ); }
      p = proc();
    }
    cleanup_children();
    base = R.work + "/b" + std::to_string( nreset++ ) + "/base";
    (void) !system( ( "mkdir -p " + base + "/d1" ).c_str() );
    if( chdir( base.c_str() ) ) { _exit( 95 ); }
    put( base + "/in1", "file-in" );
    put( base + "/d1/in2", "deep-in" );
    put( base + "/shared0", "shared-in" );
    put( base + "/shared1", "" );
    put( base + "/shared2", "" );
    put( base + "/noexec", "x" );
    // descriptors 0, 1 and 2 are files; reports of the sanitizer go to the old standard error
    static int const old2 = fcntl( 2, F_DUPFD_CLOEXEC, 150 );
#ifdef __SANITIZE_ADDRESS__
    __sanitizer_set_report_fd( (void*) (long) old2 );
#endif
    (void) old2;
    int const f0 = open( ( base + "/shared0" ).c_str(), O_RDONLY );
    int const f1 = open( ( base + "/shared1" ).c_str(), O_WRONLY | O_APPEND );
    int const f2 = open( ( base + "/shared2" ).c_str(), O_WRONLY | O_APPEND );
    dup2( f0, 0 );
    dup2( f1, 1 );
    dup2( f2, 2 );
    for( int f : { f0, f1, f2 } ) { if( f > 2 ) { close( f ); } }
    for( int k = 3; k < 1024; ++k ) { if( fcntl( k, F_GETFD ) >= 0 ) { fcntl( k, F_SETFD, FD_CLOEXEC ); } }
    handle( SIGCHLD, onchld );
    handle( SIGINT, onint );
    handle( SIGTERM, onterm );
    stray = 0;
    failforks = -1;
    frozen = true;
    now_ms = 250;
    fds0 = openfds();
  };
  auto op = [&]( char const* name, std::function< void( int, args_t const&, ev& ) > f ) {
    R.ops[name] = [f]( args_t const& a, ev& e ) {
      int const i = a.size() > 1 ? atoi( a[1].c_str() ) : 0;
      arm( 30 );
      cur = i;
      f( i, a, e );
      cur = -1;
      arm( 0 );
      report( i, e );
    };
  };
  op( "new", []( int i, args_t const&, ev& ) { P[i].p = kwsysProcess_New(); } );
  op( "del", []( int i, args_t const&, ev& ) {
    forked = nullptr;
    kwsysProcess_Delete( P[i].p );
    P[i].p = nullptr;
  } );
  op( "cmd", []( int i, args_t const& a, ev& e ) { // how kind acts...
    args_t acts( a.begin() + 4, a.end() );
    e.s( "how", a[2] ).s( "kind", a[3] ).sl( "acts", acts );
    int r;
    std::string const what = a[3] == "missing" ? "/nonexistent/prog" : a[3] == "noexec" ? base + "/noexec" : prog;
    std::vector< char const* > v;
    std::string line = "\"" + what + "\"";
    if( a[3] == "empty" ) {}
    else if( kwsysProcess_GetOption( P[i].p, kwsysProcess_Option_Verbatim ) )
    {
      for( std::string const& s : acts )
      {
        line += " \"";
        for( char c : s )
        {
          if( c == '"' || c == '\\' ) { line += '\\'; }
          line += c;
        }
        line += "\"";
      }
      v.push_back( line.c_str() );
      v.push_back( "o=ignored" );
    }
    else
    {
      v.push_back( what.c_str() );
      for( std::string const& s : acts ) { v.push_back( s.c_str() ); }
    }
    v.push_back( nullptr );
    if( a[2] == "clear" ) { r = kwsysProcess_SetCommand( P[i].p, nullptr ); }
    else if( a[2] == "set" ) { r = kwsysProcess_SetCommand( P[i].p, v.data() ); }
    else { r = kwsysProcess_AddCommand( P[i].p, v.data() ); }
    e.i( "r", r );
  } );
  op( "tmo", []( int i, args_t const& a, ev& e ) {
    e.i( "ms", atoll( a[2].c_str() ) );
    kwsysProcess_SetTimeout( P[i].p, atof( a[2].c_str() ) / 1000.0 );
  } );
  op( "wd", []( int i, args_t const& a, ev& e ) {
    std::string const d = a[2].empty() ? "" : a[2] == "/d1" ? base + "/d1" : a[2];
    e.s( "dir", a[2] ).i( "r", kwsysProcess_SetWorkingDirectory( P[i].p, d.empty() ? nullptr : d.c_str() ) );
    P[i].wd = a[2];
  } );
  op( "file", []( int i, args_t const& a, ev& e ) {
    int const k = atoi( a[2].c_str() );
    e.i( "pipe", k ).s( "f", a[3] ).i( "r", kwsysProcess_SetPipeFile( P[i].p, k + 1, a[3].empty() ? nullptr : a[3].c_str() ) );
    P[i].file[k] = a[3];
    if( !a[3].empty() ) { closepair( P[i].nat[k] ); }
  } );
  op( "shared", []( int i, args_t const& a, ev& e ) {
    int const k = atoi( a[2].c_str() );
    e.i( "pipe", k ).t( "on", a[3] == "1" );
    kwsysProcess_SetPipeShared( P[i].p, k + 1, a[3] == "1" );
    if( a[3] == "1" ) { closepair( P[i].nat[k] ); }
  } );
  op( "native", []( int i, args_t const& a, ev& e ) {
    int const k = atoi( a[2].c_str() );
    e.i( "pipe", k ).t( "on", a[3] == "1" );
    closepair( P[i].nat[k] );
    if( a[3] == "1" )
    {
      mkpipe( P[i].nat[k] );
      kwsysProcess_SetPipeNative( P[i].p, k + 1, P[i].nat[k] );
    }
    else { kwsysProcess_SetPipeNative( P[i].p, k + 1, nullptr ); }
  } );
  op( "opt", []( int i, args_t const& a, ev& e ) {
    int const o = a[2] == "detach" ? kwsysProcess_Option_Detach : a[2] == "merge" ? kwsysProcess_Option_MergeOutput : a[2] == "verbatim" ? kwsysProcess_Option_Verbatim : kwsysProcess_Option_CreateProcessGroup;
    kwsysProcess_SetOption( P[i].p, o, a[3] == "1" );
    e.s( "o", a[2] ).t( "on", a[3] == "1" ).t( "get", kwsysProcess_GetOption( P[i].p, o ) != 0 );
  } );
  op( "exec", []( int i, args_t const& a, ev& e ) { // native pipes to use, fork to fail, input for a native stdin
    bool const was = kwsysProcess_GetState( P[i].p ) == kwsysProcess_State_Executing;
    int const ff = atoi( a[2].c_str() );
    e.i( "nofork", ff );
    if( was )
    {
      kwsysProcess_Execute( P[i].p );
      return;
    }
    proc& p = P[i];
    p.det = kwsysProcess_GetOption( p.p, kwsysProcess_Option_Detach ) != 0;
    p.pids = base + "/../pids" + std::to_string( ++runs );
    pidfiles.insert( p.pids );
    setenv( "VP_PIDS", p.pids.c_str(), 1 );
    p.kids.clear();
    lseek( 0, 0, SEEK_SET );
    for( int k = 1; k < 3; ++k )
    {
      struct stat st;
      p.sharedAt[k] = fstat( k, &st ) ? 0 : (long) st.st_size;
    }
    for( int k = 0; k < 3; ++k )
    {
      for( int h = 0; h < 2; ++h ) { if( p.nat[k][h] >= 0 ) { fcntl( p.nat[k][h], F_SETFD, 0 ); } }
    }
    if( p.nat[0][1] >= 0 ) { (void) !write( p.nat[0][1], "native-in", 9 ); }
    forked = &p.kids;
    failforks = ff ? ff - 1 : -1;
    kwsysProcess_Execute( p.p );
    forked = nullptr;
    failforks = -1;
    std::string closed;
    for( int k = 0; k < 3; ++k )
    {
      int const mine = k == 0 ? 1 : 0, theirs = 1 - mine;
      if( p.nat[k][0] < 0 ) { continue; }
      closed += fcntl( p.nat[k][theirs], F_GETFD ) < 0 ? 'c' : 'o';
      if( k == 0 ) { closepair( p.nat[k] ); }
      else if( fcntl( p.nat[k][theirs], F_GETFD ) < 0 ) { p.nat[k][theirs] = -1; }
      else
      {
        close( p.nat[k][theirs] );
        p.nat[k][theirs] = -1;
      }
    }
    for( int k = 0; k < 3; ++k )
    {
      for( int h = 0; h < 2; ++h ) { if( p.nat[k][h] >= 0 ) { fcntl( p.nat[k][h], F_SETFD, FD_CLOEXEC ); } }
    }
    e.s( "natives", closed );
  } );
  op( "read", []( int i, args_t const& a, ev& e ) {
    double d = 0, *l = limit( a[2], d ), given = d;
    char* data = nullptr;
    int n = -1;
    int const r = kwsysProcess_WaitForData( P[i].p, &data, &n, l );
    e.s( "lim", a[2] );
    e.s( "r", r == kwsysProcess_Pipe_None ? "none" : r == kwsysProcess_Pipe_STDOUT ? "out" : r == kwsysProcess_Pipe_STDERR ? "err" : r == kwsysProcess_Pipe_Timeout ? "timeout" : "?" );
    e.s( "data", data && n >= 0 && ( r == kwsysProcess_Pipe_STDOUT || r == kwsysProcess_Pipe_STDERR ) ? std::string( data, n ) : "" );
    left( e, given, l );
  } );
  op( "readall", []( int i, args_t const&, ev& e ) {
    std::string s[2];
    char* data = nullptr;
    int n = -1, r;
    while( ( r = kwsysProcess_WaitForData( P[i].p, &data, &n, nullptr ) ) == kwsysProcess_Pipe_STDOUT || r == kwsysProcess_Pipe_STDERR ) { s[r == kwsysProcess_Pipe_STDERR].append( data, n ); }
    e.s( "r", r == kwsysProcess_Pipe_None ? "none" : "?" ).s( "out", s[0] ).s( "err", s[1] );
  } );
  op( "wait", []( int i, args_t const& a, ev& e ) {
    double d = 0, *l = limit( a[2], d ), given = d;
    e.s( "lim", a[2] ).i( "r", kwsysProcess_WaitForExit( P[i].p, l ) );
    left( e, given, l );
  } );
  op( "state", []( int, args_t const&, ev& ) {} );
  op( "kill", []( int i, args_t const&, ev& ) { kwsysProcess_Kill( P[i].p ); } );
  op( "intr", []( int i, args_t const&, ev& ) { kwsysProcess_Interrupt( P[i].p ); } );
  op( "disown", []( int i, args_t const&, ev& ) { kwsysProcess_Disown( P[i].p ); } );
  op( "settle", []( int i, args_t const&, ev& ) { // until the processes have ended (none of them is reaped)
    for( int t = 0; t < 10000 && kwsysProcess_GetState( P[i].p ) == kwsysProcess_State_Executing; ++t )
    {
      bool some = false;
      for( pid_t k : P[i].kids )
      {
        char const s = pstate( k );
        some = some || ( s && s != 'Z' && s != 'X' );
      }
      if( !some && alive( i ) == 0 ) { break; }
      sleep_ms( 2 );
    }
  } );
  op( "alive", []( int i, args_t const& a, ev& e ) {
    int const want = atoi( a[2].c_str() );
    int n = 0;
    for( int t = 0; t < 2000 && ( n = alive( i ) ) != want; ++t ) { sleep_ms( 2 ); }
    e.i( "n", n ).i( "want", want );
  } );
  op( "content", []( int i, args_t const& a, ev& e ) { // pipe mode
    int const k = atoi( a[2].c_str() );
    proc& p = P[i];
    std::string c;
    if( a[3] == "file" ) { c = readfile( p.wd.empty() ? base + "/" + p.file[k] : base + "/d1/" + p.file[k] ); }
    else if( a[3] == "shared" ) { c = readfile( base + "/shared" + std::to_string( k ), p.sharedAt[k] ); }
    else
    {
      char b[4096];
      ssize_t n;
      while( ( n = read( p.nat[k][0], b, sizeof b ) ) > 0 || ( n < 0 && errno == EINTR ) ) { if( n > 0 ) { c.append( b, n ); } }
      closepair( p.nat[k] );
    }
    e.i( "pipe", k ).s( "mode", a[3] ).s( "c", c );
  } );
  op( "idle", []( int, args_t const&, ev& e ) {
    int held = 0;
    for( proc& p : P ) { for( auto& n : p.nat ) { for( int f : n ) { held += f >= 0; } } }
    e.t( "chld", handled( SIGCHLD, onchld ) ).t( "int", handled( SIGINT, onint ) ).t( "term", handled( SIGTERM, onterm ) );
    e.i( "fds", openfds() - fds0 - held ).i( "stray", stray );
    siginfo_t si;
    memset( &si, 0, sizeof si );
    e.t( "kids", waitid( P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT ) == 0 );
    sigset_t m;
    sigprocmask( SIG_SETMASK, nullptr, &m );
    e.t( "blocked", sigismember( &m, SIGINT ) || sigismember( &m, SIGTERM ) || sigismember( &m, SIGCHLD ) );
  } );
  op( "pass", []( int, args_t const& a, ev& e ) {
    e.i( "ms", atoll( a[2].c_str() ) );
    now_ms += atoll( a[2].c_str() );
  } );
  op( "clock", []( int, args_t const& a, ev& e ) {
    frozen = a[2] == "frozen";
    e.s( "c", a[2] );
  } );
  op( "tick", []( int, args_t const& a, ev& e ) {
    e.t( "on", a[2] == "1" );
    tick( a[2] == "1" );
  } );
  op( "null", []( int, args_t const&, ev& e ) {
    char* d = nullptr;
    int n = 0;
    kwsysProcess_Delete( nullptr );
    kwsysProcess_Execute( nullptr );
    kwsysProcess_Kill( nullptr );
    kwsysProcess_Interrupt( nullptr );
    kwsysProcess_Disown( nullptr );
    kwsysProcess_SetTimeout( nullptr, 1 );
    kwsysProcess_SetOption( nullptr, 0, 1 );
    kwsysProcess_SetPipeShared( nullptr, 1, 1 );
    kwsysProcess_SetPipeNative( nullptr, 1, nullptr );
    e.t( "ok", kwsysProcess_GetState( nullptr ) == kwsysProcess_State_Error && !kwsysProcess_SetCommand( nullptr, nullptr ) && !kwsysProcess_AddCommand( nullptr, nullptr ) &&
      !kwsysProcess_SetWorkingDirectory( nullptr, "x" ) && !kwsysProcess_SetPipeFile( nullptr, 1, "x" ) && kwsysProcess_WaitForData( nullptr, &d, &n, nullptr ) == kwsysProcess_Pipe_None &&
      kwsysProcess_WaitForExit( nullptr, nullptr ) == 1 );
  } );
  // a program that is interrupted while processes in groups of their own run: how it and they end
  op( "selfsig", []( int i, args_t const& a, ev& e ) { // n sig objects
    int const n = atoi( a[2].c_str() ), sig = atoi( a[3].c_str() ), objs = atoi( a[4].c_str() );
    std::string const f = base + "/../pids" + std::to_string( ++runs );
    pidfiles.insert( f );
    pid_t const k = fork();
    if( k == 0 )
    {
      self_pid = getpid();
      setenv( "VP_PIDS", f.c_str(), 1 );
      signal( SIGALRM, SIG_DFL );
      alarm( 20 );
      for( int o = 0; o < objs; ++o )
      {
        kwsysProcess* p = kwsysProcess_New();
        char const* c[] = { prog.c_str(), "hang", nullptr };
        for( int m = 0; m < n; ++m ) { kwsysProcess_AddCommand( p, c ); }
        kwsysProcess_SetOption( p, kwsysProcess_Option_CreateProcessGroup, 1 );
        kwsysProcess_Execute( p );
        if( kwsysProcess_GetState( p ) != kwsysProcess_State_Executing ) { _exit( 55 ); }
      }
      raise( sig );
      _exit( 56 );
    }
    int st = 0;
    while( waitpid( k, &st, 0 ) < 0 && errno == EINTR ) {}
    P[i].pids = f;
    e.i( "n", n ).i( "sig", sig ).i( "objs", objs ).i( "by", WIFSIGNALED( st ) ? WTERMSIG( st ) : -WEXITSTATUS( st ) ).i( "alive", alive( i ) );
  } );
  int const rc = R.main( argc, argv );
  cleanup_children();
  return rc;
}
