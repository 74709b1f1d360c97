// Conformance harness: plugin loading (C20). Every script runs in a process of its own.
// argv: DIR-WITH-PLUGINS SCRIPT OUT WORK
#include "hcommon.h"
#include "plug_types.h"
#include <vital/algorithm_plugin_manager.h>
#include <vital/algorithm_plugin_manager_paths.h>
#include <atomic>
#include <thread>
#include <sys/stat.h>
using namespace kwiver::vital;
using hc::args_t;
using hc::ev;
typedef algorithm_plugin_manager APM;
INSTANTIATE_ALGORITHM_DEF( t1 )

static std::string base, notes;

static std::vector< std::string > calls( bool clear = true )
{
  std::vector< std::string > v;
  std::ifstream in( notes );
  std::string x;
  while( std::getline( in, x ) ) { v.push_back( x ); }
  in.close();
  if( clear ) { std::ofstream o( notes, std::ios::trunc ); }
  return v;
}

// paths relative to the directory of the script
static std::string rel( std::string const& p )
{
  return p.compare( 0, base.size() + 1, base + "/" ) ? p : p.substr( base.size() + 1 );
}
static std::vector< std::string > rel( std::vector< std::string > v ) { for( auto& x : v ) { x = rel( x ); } return v; }
static std::string abs_( std::string const& p ) { return p.empty() || p[0] == '/' ? p : base + "/" + p; }

// every registered algorithm and where it came from, found out by making one
static std::string algos()
{
  std::string o = "[";
  for( auto const& q : algorithm::registered_names( "t1" ) )
  {
    std::string const n = q;
    algorithm_sptr a = algorithm::create( "t1", n );
    std::string from = "?";
    if( a )
    {
      from = a->description();
      if( a->get_configuration()->get_value< std::string >( "from", "?" ) != from || a->impl_name() != n ) { from = "?"; }
    }
    o += ( o.size() > 1 ? ",[" : "[" ) + hc::js( n ) + "," + hc::js( rel( from ) ) + "]";
  }
  return o + "]";
}

static void copy( std::string const& f, std::string const& t )
{
  std::ifstream i( f, std::ios::binary );
  std::ofstream o( t, std::ios::binary | std::ios::trunc );
  o << i.rdbuf();
}

int main( int argc, char** argv )
{
  hc::runner R;
  R.fork_each = true;
  std::string const plugs = argv[1];
  int n = 0;
  std::map< std::string, algorithm_sptr > held;
  R.on_reset = [&]() {
    base = R.work + "/s" + std::to_string( (long) getpid() );
    mkdir( base.c_str(), 0777 );
    notes = base + ".notes";
    setenv( "VP_NOTES", notes.c_str(), 1 );
    unsetenv( "KWIVER_PLUGIN_PATH" );
  };
  auto state = [&]( ev& e ) { e.sl( "calls", rel( calls() ) ).raw( "algs", algos() ).sl( "mods", APM::instance().registered_module_names() ); };
  R.ops["dir"] = [&]( args_t const& a, ev& e ) { mkdir( abs_( a[1] ).c_str(), 0777 ); e.s( "d", a[1] ); };
  // put dir file kind ret ms alg...
  R.ops["put"] = [&]( args_t const& a, ev& e ) {
    std::string const p = abs_( a[1] ) + "/" + a[2], k = a[3];
    if( k == "module" ) { struct stat st; if( stat( p.c_str(), &st ) ) { copy( plugs + "/h_plug_multi.so", p ); } }
    else if( k == "noentry" || k == "undef" ) { copy( plugs + "/h_plug_" + k + ".so", p ); }
    else if( k == "text" ) { std::ofstream o( p ); o << "private_register_algo_impls\n"; }
    else if( k == "empty" ) { std::ofstream o( p ); }
    else if( k == "cut" ) { std::ifstream i( plugs + "/h_plug_multi.so", std::ios::binary ); std::string b( 40, 0 ); i.read( &b[0], 40 ); std::ofstream o( p, std::ios::binary ); o << b; }
    else if( k == "dir" ) { mkdir( p.c_str(), 0777 ); }
    else if( k == "gone" ) { if( symlink( "/nonexistent/x.so", p.c_str() ) ) {} }
    std::vector< std::string > al( a.begin() + 6, a.end() );
    if( k == "module" )
    {
      std::ofstream o( p + ".cfg" );
      o << a[4] << " " << a[5] << "\n";
      for( auto const& x : al ) { o << x << "\n"; }
    }
    e.s( "d", a[1] ).s( "f", a[2] ).s( "k", k ).i( "ret", atoi( a[4].c_str() ) ).sl( "al", al );
  };
  R.ops["rm"] = [&]( args_t const& a, ev& e ) { unlink( ( abs_( a[1] ) + "/" + a[2] ).c_str() ); e.s( "d", a[1] ).s( "f", a[2] ); };
  // env dir... (before the manager exists)
  R.ops["env"] = [&]( args_t const& a, ev& e ) {
    std::string v;
    for( size_t i = 1; i < a.size(); ++i ) { v += ( i > 1 ? ":" : "" ) + abs_( a[i] ); }
    setenv( "KWIVER_PLUGIN_PATH", v.c_str(), 1 );
    e.sl( "v", args_t( a.begin() + 1, a.end() ) );
  };
  R.ops["add"] = [&]( args_t const& a, ev& e ) { APM::instance().add_search_path( abs_( a[1] ) ); e.s( "d", a[1] ); };
  R.ops["paths"] = [&]( args_t const& a, ev& e ) {
    std::vector< std::string > d;
    std::stringstream s( DEFAULT_MODULE_PATHS );
    std::string x;
    while( std::getline( s, x, PATH_SEPARATOR_CHAR ) ) { d.push_back( x ); }
    e.sl( "v", rel( APM::instance().get_search_path() ) ).sl( "d", d );
  };
  R.ops["load"] = [&]( args_t const& a, ev& e ) {
    e.s( "n", a.size() > 1 ? a[1] : "" );
    if( a.size() > 1 ) { APM::instance().register_plugins( a[1] ); }
    else { APM::instance().register_plugins(); }
    state( e );
  };
  // once k: k threads ask for the plugins at once
  R.ops["once"] = [&]( args_t const& a, ev& e ) {
    int const k = atoi( a[1].c_str() );
    std::vector< int > r( k, 0 ), seen( k, 0 );
    std::vector< std::thread > t;
    std::atomic< int > ready( 0 );
    for( int i = 0; i < k; ++i )
    {
      t.push_back( std::thread( [&, i]() {
        ++ready;
        while( ready < k ) {}
        r[i] = APM::load_plugins_once();
        seen[i] = (int) algorithm::registered_names( "t1" ).size();
      } ) );
    }
    for( auto& x : t ) { x.join(); }
    e.il( "r", r ).il( "seen", seen );
    state( e );
  };
  R.ops["state"] = [&]( args_t const& a, ev& e ) { state( e ); };
  // make h name / held h: an algorithm keeps working whatever is loaded meanwhile
  R.ops["make"] = [&]( args_t const& a, ev& e ) {
    auto x = held[a[1]] = algorithm::create( "t1", a[2] );
    e.s( "h", a[1] ).s( "n", a[2] ).t( "got", !!x ).s( "from", x ? rel( x->description() ) : "" );
  };
  R.ops["held"] = [&]( args_t const& a, ev& e ) {
    auto x = held[a[1]];
    if( x ) { x = std::dynamic_pointer_cast< algorithm >( x->base_clone() ); }
    e.s( "h", a[1] ).t( "got", !!x ).s( "n", x ? x->impl_name() : "" ).s( "from", x ? rel( x->description() ) : "" );
  };
  return R.main( argc, argv );
}
