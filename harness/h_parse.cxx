// Conformance harness for configuration files (C06..C10, C37). "@" in arguments and results is the scratch root.
#include "hcommon.h"
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <atomic>
#include <thread>
#include <sys/stat.h>
#include <sys/utsname.h>

using namespace kwiver::vital;
using hc::args_t;
using hc::ev;

static hc::runner R;
static std::string root;
static int nroot;
static std::set< std::string > touched_env;

static std::string in( std::string const& s )
{
  std::string o;
  for( char c : s ) { if( c == '@' ) { o += root; } else { o += c; } }
  return o;
}
static std::string outp( std::string s )
{
  size_t p = 0;
  while( ( p = s.find( root, p ) ) != std::string::npos ) { s.replace( p, root.size(), "@" ); p += 1; }
  return s;
}
static std::string guard( std::function< void() > f )
{
  try { f(); return "ok"; }
  catch( config_file_not_found_exception const& ) { return "!not_found"; }
  catch( config_file_not_parsed_exception const& ) { return "!not_parsed"; }
  catch( config_file_write_exception const& ) { return "!write"; }
  catch( set_on_read_only_value_exception const& ) { return "!set_ro"; }
  catch( std::exception const& e ) { return std::string( "!other " ) + e.what(); }
  catch( ... ) { return "!unknown"; }
}
static void mkdirs( std::string const& p )
{
  for( size_t i = 1; i <= p.size(); ++i ) { if( i == p.size() || p[i] == '/' ) { mkdir( p.substr( 0, i ).c_str(), 0755 ); } }
}
static std::string rows( config_block_sptr b, bool full )
{
  std::string o = "[";
  bool first = true;
  for( auto const& k : b->available_values() )
  {
    o += ( first ? "" : "," );
    first = false;
    o += "[" + hc::js( k ) + "," + hc::js( outp( b->get_value< std::string >( k, "<none>" ) ) );
    if( full )
    {
      std::string f; int line = 0;
      b->get_location( k, f, line );
      o += "," + hc::js( b->get_description( k ) ) + "," + hc::js( b->is_read_only( k ) ? "1" : "0" ) + "," +
           hc::js( outp( f ) ) + "," + hc::js( std::to_string( line ) );
    }
    o += "]";
  }
  return o + "]";
}
static config_path_list_t splitsp( std::string const& s )
{
  config_path_list_t o; std::stringstream ss( s ); std::string x;
  while( std::getline( ss, x, ';' ) ) { if( !x.empty() ) { o.push_back( in( x ) ); } }
  return o;
}
// fields of one read: "r", "rows"
static std::string read1( std::string const& path, config_path_list_t const& sp )
{
  config_block_sptr b;
  std::string r = guard( [&] { b = read_config_file( in( path ), sp ); } );
  return "\"r\":" + hc::js( r ) + ",\"rows\":" + ( r == "ok" && b ? rows( b, true ) : "[]" );
}
static std::vector< std::string > showsp( std::string const& s )
{
  std::vector< std::string > o; std::stringstream ss( s ); std::string x;
  while( std::getline( ss, x, ';' ) ) { if( !x.empty() ) { o.push_back( x ); } }
  return o;
}
static void cleanup() { if( !root.empty() ) { chdir( R.work.c_str() ); system( ( "rm -rf '" + root + "'" ).c_str() ); } }

int main( int argc, char** argv )
{
  R.on_reset = [] {
    cleanup();
    root = R.work + "/s" + std::to_string( nroot++ );
    mkdirs( root );
    chdir( root.c_str() );
    for( auto const& n : touched_env ) { unsetenv( n.c_str() ); }
    touched_env.clear();
    unsetenv( "HOME" ); unsetenv( "XDG_CONFIG_HOME" ); unsetenv( "KWIVER_CONFIG_PATH" ); unsetenv( "XDG_CONFIG_DIRS" );
  };
  R.ops["file"] = []( args_t const& a, ev& e ) {
    std::string p = in( a[1] );
    if( p[0] != '/' ) { char b[4096]; getcwd( b, sizeof b ); p = std::string( b ) + "/" + p; }
    mkdirs( p.substr( 0, p.rfind( '/' ) ) );
    std::ofstream f( p.c_str() );
    std::vector< std::string > l;
    for( size_t i = 4; i < a.size(); ++i )
    {
      l.push_back( a[i] );
      f << in( a[i] );
      if( i + 1 < a.size() || a[3] == "1" ) { f << a[2]; }
    }
    e.s( "path", a[1] ).sl( "lines", l );
  };
  R.ops["rmfile"] = []( args_t const& a, ev& e ) { unlink( in( a[1] ).c_str() ); e.s( "path", a[1] ); };
  R.ops["dir"] = []( args_t const& a, ev& e ) { mkdirs( in( a[1] ) ); e.s( "path", a[1] ); };
  R.ops["chdir"] = []( args_t const& a, ev& e ) { chdir( in( a[1] ).c_str() ); e.s( "path", a[1] ); };
  R.ops["env"] = []( args_t const& a, ev& e ) { setenv( a[1].c_str(), in( a[2] ).c_str(), 1 ); touched_env.insert( a[1] ); e.s( "n", a[1] ).s( "v", a[2] ); };
  R.ops["unenv"] = []( args_t const& a, ev& e ) { unsetenv( a[1].c_str() ); e.s( "n", a[1] ); };
  R.ops["sys"] = []( args_t const& a, ev& e ) {
    std::string v;
    struct utsname u; uname( &u );
    char b[4096];
    if( a[1] == "cwd" ) { getcwd( b, sizeof b ); v = outp( b ); }
    else if( a[1] == "hostname" ) { gethostname( b, sizeof b ); v = b; }
    else if( a[1] == "osname" ) { v = u.sysname; }
    else if( a[1] == "osplatform" ) { v = u.machine; }
    else if( a[1] == "islinux" || a[1] == "is64bits" ) { v = "TRUE"; }
    else if( a[1] == "isapple" || a[1] == "iswindows" ) { v = "FALSE"; }
    else if( a[1] == "numproc" )
    {
      std::ifstream f( "/proc/cpuinfo" ); std::string l; int n = 0;
      while( std::getline( f, l ) ) { if( l.compare( 0, 9, "processor" ) == 0 ) { ++n; } }
      v = std::to_string( n );
    }
    e.s( "n", a[1] ).s( "v", v );
  };
  R.ops["read"] = []( args_t const& a, ev& e ) {
    e.s( "path", a[1] ).sl( "sp", showsp( a[2] ) );
    e.b += "," + read1( a[1], splitsp( a[2] ) );
  };
  R.ops["conc"] = []( args_t const& a, ev& e ) {
    int iters = atoi( a[1].c_str() );
    size_t n = a.size() - 3;
    std::vector< std::map< std::string, int > > got( n );
    std::vector< std::thread > th;
    std::atomic< int > ready( 0 );
    auto sp = splitsp( a[2] );
    for( size_t t = 0; t < n; ++t )
    {
      th.push_back( std::thread( [&, t] {
        ++ready;
        while( ready < (int) n ) {}
        for( int i = 0; i < iters; ++i ) { ++got[t][read1( a[3 + t], sp )]; }
      } ) );
    }
    for( auto& t : th ) { t.join(); }
    std::string o = "[";
    for( size_t t = 0; t < n; ++t )
    {
      for( auto const& g : got[t] )
      {
        o += std::string( o.size() > 1 ? "," : "" ) + ev( "read" ).s( "path", a[3 + t] ).sl( "sp", showsp( a[2] ) ).b + "," + g.first + "}";
      }
    }
    e.raw( "reads", o + "]" );
  };
  R.ops["write"] = []( args_t const& a, ev& e ) {
    auto b = config_block::empty_config();
    std::string rr = "[";
    for( size_t i = 2; i + 2 < a.size(); i += 3 )
    {
      b->set_value( a[i], a[i + 1], a[i + 2] );
      rr += std::string( rr.size() > 1 ? "," : "" ) + "[" + hc::js( a[i] ) + "," + hc::js( a[i + 1] ) + "," + hc::js( a[i + 2] ) + "]";
    }
    std::string r = guard( [&] { write_config_file( b, in( a[1] ) ); } ), back = "none", br = "[]";
    std::vector< std::string > lines;
    if( r == "ok" )
    {
      std::ifstream f( in( a[1] ).c_str() );
      std::string l;
      while( std::getline( f, l ) ) { lines.push_back( outp( l ) ); }
      config_block_sptr c;
      back = guard( [&] { c = read_config_file( in( a[1] ) ); } );
      if( c ) { br = rows( c, false ); }
    }
    e.s( "path", a[1] ).raw( "rows", rr + "]" ).s( "r", r ).sl( "lines", lines ).s( "back", back ).raw( "brows", br );
  };
  R.ops["paths"] = []( args_t const& a, ev& e ) {
    std::vector< std::string > l;
    for( auto const& p : config_file_paths( a[1], a[2], in( a[3] ) ) ) { l.push_back( outp( p ) ); }
    e.s( "app", a[1] ).s( "ver", a[2] ).s( "prefix", a[3] ).sl( "l", l );
  };
  R.ops["lookup"] = []( args_t const& a, ev& e ) {
    config_block_sptr b;
    std::string r = guard( [&] { b = read_config_file( in( a[1] ), a[2], a[3], in( a[4] ), a[5] == "1" ); } );
    e.s( "f", a[1] ).s( "app", a[2] ).s( "ver", a[3] ).s( "prefix", a[4] ).t( "merge", a[5] == "1" )
     .s( "r", r ).raw( "rows", r == "ok" && b ? rows( b, false ) : "[]" );
  };
  int rc = R.main( argc, argv );
  cleanup();
  return rc;
}
