// Conformance harness for the file-system helpers of the bundled kwsys (C35).
// Whatever the helpers do happens below a scratch directory, as a user who owns nothing else.
#include "hcommon.h"
#include <algorithm>
#include <memory>
#include <vector>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <kwsys/Directory.hxx>
#include <kwsys/Glob.hxx>
#include <kwsys/RegularExpression.hxx>
#include <kwsys/SystemTools.hxx>
using hc::args_t;
using hc::ev;
typedef kwsys::SystemTools st;

static std::string base; // what scripts call "/"
static std::string in( std::string const& t ) { return !t.empty() && t[0] == '/' ? base + t : t; }
// a path below the base as scripts write it
static std::string out( std::string const& t )
{
  if( t == base ) { return "/"; }
  return t.compare( 0, base.size() + 1, base + "/" ) == 0 ? t.substr( base.size() ) : t;
}
static std::string quoted( std::vector< std::string > const& v )
{
  std::string o = "[";
  for( size_t i = 0; i < v.size(); ++i ) { o += ( i ? "," : "" ) + hc::js( v[i] ); }
  return o + "]";
}
// long contents as repeated characters
static std::string coded( std::string const& t )
{
  if( t.size() <= 64 ) { return t; }
  std::string o = "RLE:";
  for( size_t i = 0, j; i < t.size(); i = j )
  {
    for( j = i; j < t.size() && t[j] == t[i]; ++j ) {}
    o += std::to_string( j - i ) + t[i];
  }
  return o;
}
static std::string decoded( std::string const& t )
{
  if( t.compare( 0, 4, "RLE:" ) ) { return t; }
  std::string o;
  for( size_t i = 4; i < t.size(); )
  {
    size_t n = 0;
    long const k = std::stol( t.substr( i ), &n );
    o.append( k, t[i + n] );
    i += n + 1;
  }
  return o;
}
static std::string slurp( std::string const& f )
{
  std::string o;
  char b[8192];
  int const d = open( f.c_str(), O_RDONLY );
  for( ssize_t n; d >= 0 && ( n = read( d, b, sizeof b ) ) > 0; ) { o.append( b, n ); }
  if( d >= 0 ) { close( d ); }
  return o;
}
// the whole tree, whatever its permissions are
static void walk( std::string const& rel, std::vector< std::string >& o )
{
  std::string const f = rel.empty() ? base : base + "/" + rel;
  struct stat s;
  if( lstat( f.c_str(), &s ) ) { return; }
  bool const dir = S_ISDIR( s.st_mode ), link = S_ISLNK( s.st_mode );
  int const m = link ? 0 : s.st_mode & 07777;
  std::string d;
  size_t n = 0;
  if( link )
  {
    char b[4096];
    ssize_t const k = readlink( f.c_str(), b, sizeof b );
    d = out( std::string( b, std::max< ssize_t >( k, 0 ) ) );
  }
  else if( !dir )
  {
    if( !( m & 0400 ) ) { chmod( f.c_str(), m | 0400 ); }
    d = slurp( f );
    if( !( m & 0400 ) ) { chmod( f.c_str(), m ); }
    n = d.size();
    d = coded( d );
  }
  int const k = dir || link ? 0 : s.st_mtime < 1000 ? (int) s.st_mtime : 9999;
  o.push_back( "{\"p\":" + hc::js( rel ) + ",\"t\":\"" + ( dir ? "d" : link ? "l" : S_ISREG( s.st_mode ) ? "f" : "?" ) + "\",\"m\":" + std::to_string( m ) + ",\"d\":" + hc::js( d )
               + ",\"n\":" + std::to_string( n ) + ",\"k\":" + std::to_string( k ) + "}" );
  if( !dir ) { return; }
  if( ( m & 0500 ) != 0500 ) { chmod( f.c_str(), m | 0700 ); }
  std::vector< std::string > names;
  if( DIR* h = opendir( f.c_str() ) )
  {
    while( dirent* e = readdir( h ) )
    {
      std::string const x = e->d_name;
      if( x != "." && x != ".." ) { names.push_back( x ); }
    }
    closedir( h );
  }
  std::sort( names.begin(), names.end() );
  for( auto const& x : names ) { walk( rel.empty() ? x : rel + "/" + x, o ); }
  if( ( m & 0500 ) != 0500 ) { chmod( f.c_str(), m ); }
}
static std::string tree()
{
  std::vector< std::string > v;
  walk( "", v );
  std::string o = "[";
  for( size_t i = 0; i < v.size(); ++i ) { o += ( i ? "," : "" ) + v[i]; }
  return o + "]";
}

int main( int argc, char** argv )
{
  std::string const work = argv[argc - 1], output = argv[argc - 2], script = argv[argc - 3];
  umask( 022 );
  if( getuid() == 0 )
  {
    // become somebody who owns nothing but the scratch directory
    std::string d = work;
    struct stat m;
    while( !( d = d.substr( 0, d.rfind( '/' ) ) ).empty() )
    {
      if( stat( d.c_str(), &m ) || ( !( m.st_mode & 1 ) && chmod( d.c_str(), 0711 ) ) ) { fprintf( stderr, "scratch directory %s\n", d.c_str() ); return 5; }
    }
    int const o = open( output.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644 );
    if( o < 0 || fchown( o, 65534, 65534 ) || chown( work.c_str(), 65534, 65534 ) || chmod( script.c_str(), 0644 ) ) { return 5; }
    close( o );
    if( setgroups( 0, nullptr ) || setgid( 65534 ) || setuid( 65534 ) || getuid() == 0 ) { fprintf( stderr, "cannot become another user\n" ); return 5; }
    prctl( PR_SET_DUMPABLE, 1 );
  }
  hc::runner R;
  int round = 0;
  std::string last;
  std::unique_ptr< kwsys::Directory > dir( new kwsys::Directory );
  R.on_reset = [&]() {
    base = R.work + "/t" + std::to_string( ++round );
    mkdir( base.c_str(), 0755 );
    if( chdir( base.c_str() ) ) { _exit( 6 ); }
    dir.reset( new kwsys::Directory );
    setenv( "PATH", "", 1 );
    unsetenv( "CMAKE_FILE_PATH" );
    last = tree();
  };
  auto op = [&]( char const* name, std::function< void( args_t const&, ev& ) > f ) {
    R.ops[name] = [&, f]( args_t const& a, ev& e ) {
      f( a, e );
      std::string const now = tree();
      e.t( "chg", now != last );
      if( now != last ) { e.raw( "tree", now ); }
      last = now;
    };
  };
  auto arg = []( args_t const& a, size_t i ) { return i < a.size() ? a[i] : std::string(); };
  // ---- the harness's own
  op( "write", [&]( args_t const& a, ev& e ) {
    std::string const t = decoded( arg( a, 2 ) );
    int const d = open( in( a[1] ).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644 );
    e.s( "p", a[1] ).t( "r", d >= 0 && write( d, t.data(), t.size() ) == (ssize_t) t.size() );
    if( d >= 0 ) { close( d ); }
  } );
  op( "stamp", [&]( args_t const& a, ev& e ) {
    struct timespec const t[2] = { { atoi( a[2].c_str() ), 0 }, { atoi( a[2].c_str() ), 0 } };
    e.s( "p", a[1] ).t( "r", utimensat( AT_FDCWD, in( a[1] ).c_str(), t, 0 ) == 0 );
  } );
  op( "sys", [&]( args_t const& a, ev& e ) {
    std::vector< std::string > v( a.begin() + 1, a.end() );
    std::string t;
    for( auto const& x : v ) { t += ( t.empty() ? "" : ":" ) + in( x ); }
    setenv( "PATH", t.c_str(), 1 );
    e.raw( "dirs", quoted( v ) );
  } );
  // ---- questions
  op( "exists", [&]( args_t const& a, ev& e ) {
    std::string const p = in( arg( a, 1 ) );
    e.s( "p", arg( a, 1 ) ).t( "r", st::FileExists( p ) && st::FileExists( p.c_str() ) ).t( "file", st::FileExists( p, true ) ).t( "any", st::FileExists( p.c_str(), false ) );
  } );
  op( "access", [&]( args_t const& a, ev& e ) {
    int const m = atoi( a[2].c_str() );
    e.s( "p", a[1] ).i( "mode", m ).t( "r", st::TestFileAccess( in( a[1] ), (kwsys::TestFilePermissions) m ) );
  } );
  op( "isdir", [&]( args_t const& a, ev& e ) { e.s( "p", arg( a, 1 ) ).t( "r", st::FileIsDirectory( in( arg( a, 1 ) ) ) ); } );
  op( "islink", [&]( args_t const& a, ev& e ) { e.s( "p", a[1] ).t( "r", st::FileIsSymlink( in( a[1] ) ) ); } );
  op( "len", [&]( args_t const& a, ev& e ) { e.s( "p", a[1] ).i( "r", (int) st::FileLength( in( a[1] ) ) ); } );
  op( "same", [&]( args_t const& a, ev& e ) { e.s( "p", a[1] ).s( "q", a[2] ).t( "r", st::SameFile( in( a[1] ), in( a[2] ) ) ); } );
  op( "differ", [&]( args_t const& a, ev& e ) { e.s( "p", a[1] ).s( "q", a[2] ).t( "r", st::FilesDiffer( in( a[1] ), in( a[2] ) ) ); } );
  op( "times", [&]( args_t const& a, ev& e ) {
    int c = 77;
    bool const r = st::FileTimeCompare( in( a[1] ), in( a[2] ), &c );
    e.s( "p", a[1] ).s( "q", a[2] ).t( "r", r ).i( "c", c );
  } );
  op( "perms", [&]( args_t const& a, ev& e ) {
    mode_t m = 0;
    bool const r = st::GetPermissions( in( a[1] ), m );
    e.s( "p", a[1] ).i( "r", r ? (int) ( m & 07777 ) : -1 );
  } );
  op( "readlink", [&]( args_t const& a, ev& e ) {
    std::string t = "<none>";
    e.s( "p", a[1] );
    bool const r = st::ReadSymlink( in( a[1] ), t );
    e.s( "r", r ? out( t ) : "<none>" );
  } );
  op( "real", [&]( args_t const& a, ev& e ) {
    std::string m;
    std::string const r = st::GetRealPath( in( a[1] ), &m );
    e.s( "p", a[1] ).s( "r", out( r ) ).s( "msg", m ).s( "plain", out( st::GetRealPath( in( a[1] ) ) ) );
  } );
  op( "list", [&]( args_t const& a, ev& e ) {
    bool const r = dir->Load( in( a[1] ) );
    std::vector< std::string > v;
    for( unsigned long i = 0; i < dir->GetNumberOfFiles(); ++i ) { v.push_back( dir->GetFile( i ) ); }
    std::string p = dir->GetPath();
    // as it was given
    if( p == in( a[1] ) ) { p = a[1]; }
    e.s( "p", a[1] ).t( "r", r ).i( "n", (int) dir->GetNumberOfFiles() ).i( "count", (int) kwsys::Directory::GetNumberOfFilesInDirectory( in( a[1] ) ) )
     .t( "beyond", dir->GetFile( dir->GetNumberOfFiles() ) == nullptr ).raw( "names", quoted( v ) ).s( "path", p );
  } );
  op( "cd", [&]( args_t const& a, ev& e ) {
    bool const r = st::ChangeDirectory( in( a[1] ) ) == 0;
    e.s( "p", a[1] ).t( "r", r ).s( "cwd", out( st::GetCurrentWorkingDirectory() ) );
  } );
  // find WHAT NOSYS NAME DIR...
  op( "find", [&]( args_t const& a, ev& e ) {
    std::vector< std::string > v( a.begin() + 4, a.end() ), w;
    for( auto const& x : v ) { w.push_back( in( x ) ); }
    bool const nosys = a[2] == "1";
    std::string const n = a[1] == "program" ? in( a[3] ) : a[3];
    std::string const r = a[1] == "file" ? st::FindFile( n, w, nosys ) : a[1] == "dir" ? st::FindDirectory( n, w, nosys )
      : w.size() % 2 ? st::FindProgram( n, w, nosys ) : st::FindProgram( std::vector< std::string >( 1, n ), w, nosys );
    e.s( "what", a[1] ).t( "nosys", nosys ).s( "name", a[3] ).raw( "dirs", quoted( v ) ).s( "r", out( r ) );
  } );
  op( "locate", [&]( args_t const& a, ev& e ) {
    std::string f = "<none>";
    bool const r = st::LocateFileInDir( a[1].c_str(), in( a[2] ).c_str(), f, a[3] == "1" );
    e.s( "p", a[1] ).s( "q", a[2] ).t( "deep", a[3] == "1" ).s( "r", r ? out( f ) : f == "<none>" ? "" : "<touched>" );
  } );
  // glob PATTERN REC LINKS LD RLD REL
  std::shared_ptr< kwsys::Glob > g( new kwsys::Glob );
  op( "glob", [&, g]( args_t const& a, ev& e ) {
    g->SetRecurse( a[2] == "1" );
    g->SetRecurseThroughSymlinks( a[3] == "1" );
    g->SetListDirs( a[4] == "1" );
    g->SetRecurseListDirs( a[5] == "1" );
    std::string const rel = arg( a, 6 );
    g->SetRelative( rel.empty() ? nullptr : in( rel ).c_str() );
    bool const r = g->FindFiles( in( a[1] ) );
    std::vector< std::string > v;
    for( auto const& x : g->GetFiles() ) { v.push_back( rel.empty() ? out( x ) : x ); }
    e.s( "p", a[1] ).t( "rec", a[2] == "1" ).t( "links", a[3] == "1" ).t( "ld", a[4] == "1" ).t( "rld", a[5] == "1" ).s( "rel", rel ).t( "r", r ).raw( "files", quoted( v ) );
  } );
  op( "pmatch", [&]( args_t const& a, ev& e ) {
    kwsys::RegularExpression x( kwsys::Glob::PatternToRegex( a[1] ) );
    e.s( "p", a[1] ).s( "t", arg( a, 2 ) ).t( "r", x.find( arg( a, 2 ) ) );
  } );
  op( "signed", [&]( args_t const& a, ev& e ) {
    long const o = atol( a[3].c_str() );
    e.s( "p", a[1] ).s( "sig", a[2] ).i( "off", o ).t( "r", st::FileHasSignature( in( a[1] ).c_str(), a[2].c_str(), o ) );
  } );
  op( "kind", [&]( args_t const& a, ev& e ) {
    int const n = atoi( a[2].c_str() ), k = atoi( a[3].c_str() );
    st::FileTypeEnum const r = st::DetectFileType( in( a[1] ).c_str(), n, k / 100.0 );
    e.s( "p", a[1] ).i( "n", n ).i( "percent", k ).s( "r", r == st::FileTypeText ? "text" : r == st::FileTypeBinary ? "binary" : "unknown" );
  } );
  // ---- changes
  op( "chmod", [&]( args_t const& a, ev& e ) {
    int const m = atoi( a[2].c_str() );
    e.s( "p", a[1] ).i( "m", m ).t( "mask", a[3] == "1" ).t( "r", st::SetPermissions( in( a[1] ), m, a[3] == "1" ) );
  } );
  op( "link", [&]( args_t const& a, ev& e ) { e.s( "to", a[1] ).s( "p", a[2] ).t( "r", st::CreateSymlink( in( a[1] ), in( a[2] ) ) ); } );
  op( "mkdir", [&]( args_t const& a, ev& e ) { e.s( "p", arg( a, 1 ) ).t( "r", st::MakeDirectory( in( arg( a, 1 ) ) ) ); } );
  op( "touch", [&]( args_t const& a, ev& e ) { e.s( "p", a[1] ).t( "create", a[2] == "1" ).t( "r", st::Touch( in( a[1] ), a[2] == "1" ) ); } );
  op( "copy", [&]( args_t const& a, ev& e ) {
    bool const always = a[3] == "1";
    bool const r = a.size() > 4 ? st::CopyAFile( in( a[1] ), in( a[2] ), always ) : always ? st::CopyFileAlways( in( a[1] ), in( a[2] ) ) : st::CopyFileIfDifferent( in( a[1] ), in( a[2] ) );
    e.s( "p", a[1] ).s( "q", a[2] ).t( "always", always ).t( "r", r );
  } );
  op( "copytree", [&]( args_t const& a, ev& e ) { e.s( "p", a[1] ).s( "q", a[2] ).t( "always", a[3] == "1" ).t( "r", st::CopyADirectory( in( a[1] ), in( a[2] ), a[3] == "1" ) ); } );
  op( "rmfile", [&]( args_t const& a, ev& e ) { e.s( "p", a[1] ).t( "r", st::RemoveFile( in( a[1] ) ) ); } );
  op( "rmtree", [&]( args_t const& a, ev& e ) { e.s( "p", a[1] ).t( "r", st::RemoveADirectory( in( a[1] ) ) ); } );
  return R.main( argc, argv );
}
