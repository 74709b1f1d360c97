// Conformance harness: tokenizing (C28), timers (C29).
#include "hcommon.h"
#include <chrono>
#include <cmath>
#include <ctime>
#include <deque>
#include <list>
#include <memory>
#include <vital/util/cpu_timer.h>
#include <vital/util/tokenize.h>
#include <vital/util/wall_timer.h>
using namespace kwiver::vital;
using hc::args_t;
using hc::ev;
static long long N( std::string const& s ) { return strtoll( s.c_str(), 0, 10 ); }

// ---------------------------------------------------------------- tokens
struct held
{
  std::string k;
  std::vector< std::string > v;
  std::list< std::string > l;
  std::deque< std::string > d;
  std::vector< std::string > all() const { return k == "list" ? std::vector< std::string >( l.begin(), l.end() ) : k == "deque" ? std::vector< std::string >( d.begin(), d.end() ) : v; }
};
static void tokens( hc::runner& R )
{
  static std::map< std::string, held > hs;
  R.on_reset = [] { hs.clear(); };
  // container kind string delimiters trim ["-": by default arguments]
  R.ops["tok"] = []( args_t const& a, ev& e ) {
    held& h = hs[a[1]];
    h.k = a[2];
    std::string const s = a[3], d = a[4];
    bool const trim = a[5] == "1", dflt = a.size() > 6;
    if( dflt && h.k == "vector" && !trim ) { tokenize( s, h.v ); }
    else if( dflt && !trim ) { if( h.k == "list" ) { tokenize( s, h.l ); } else { tokenize( s, h.d ); } }
    else
    {
      std::string const u = dflt ? std::string( " " ) : d;
      if( h.k == "vector" ) { tokenize( s, h.v, u, trim ); } else if( h.k == "list" ) { tokenize( s, h.l, u, trim ); } else { tokenize( s, h.d, u, trim ); }
    }
    e.s( "h", a[1] ).s( "s", s ).s( "d", d ).t( "trim", trim ).t( "dflt", dflt ).sl( "out", h.all() );
  };
  R.ops["clear"] = []( args_t const& a, ev& e ) { hs[a[1]] = held(); e.s( "h", a[1] ); };
}

// ---------------------------------------------------------------- timers
static std::chrono::system_clock::time_point wall0;
static std::clock_t cpu0;
static long long wall_now() { return std::chrono::duration_cast< std::chrono::microseconds >( std::chrono::system_clock::now() - wall0 ).count(); }
static long long cpu_now() { return (long long) ( ( std::clock() - cpu0 ) * ( 1000000. / CLOCKS_PER_SEC ) ); }
static void pass( std::string const& how, long long ms )
{
  if( how == "sleep" ) { usleep( ms * 1000 ); return; }
  long long const t = cpu_now();
  volatile double x = 1;
  while( cpu_now() - t < ms * 1000 ) { x = std::sqrt( x + 1 ); }
}
struct tm_t
{
  std::string k;
  std::shared_ptr< timer > t;
};
template < typename T > static void scoped( args_t const& a, ev& e, long long ( *now )() )
{
  std::ostringstream err;
  std::streambuf* const old = std::cerr.rdbuf( err.rdbuf() );
  long long b, c, d, x;
  {
    b = now();
    auto t = a[2] == "-" ? std::unique_ptr< scoped_timer< T > >( new scoped_timer< T >() ) : std::unique_ptr< scoped_timer< T > >( new scoped_timer< T >( a[2] ) );
    c = now();
    pass( a[3], N( a[4] ) );
    d = now();
    t.reset();
    x = now();
  }
  std::cerr.rdbuf( old );
  std::string s = err.str(), num;
  std::string const key = "elapsed time: ";
  size_t const p = s.rfind( key );
  double v = -1;
  if( p != std::string::npos )
  {
    char const* q = s.c_str() + p + key.size();
    char* end = 0;
    v = strtod( q, &end );
    if( end != q ) { s = s.substr( 0, p + key.size() ) + "#" + end; }
  }
  e.i( "b", b ).i( "c", c ).i( "d", d ).i( "a", x ).s( "title", a[2] == "-" ? "" : a[2] ).s( "text", s ).i( "us", llround( v * 1e6 ) );
}
static void timers( hc::runner& R )
{
  static std::map< std::string, tm_t > ts;
  R.on_reset = [] { ts.clear(); wall0 = std::chrono::system_clock::now(); cpu0 = std::clock(); };
  auto with = []( args_t const& a, ev& e, std::function< void( timer& ) > f ) {
    tm_t& t = ts[a[1]];
    long long ( *now )() = t.k == "wall" ? wall_now : cpu_now;
    e.s( "h", a[1] ).i( "b", now() );
    f( *t.t );
    e.i( "a", now() ).t( "active", t.t->is_active() );
  };
  R.ops["new"] = [=]( args_t const& a, ev& e ) {
    ts[a[1]].k = a[2];
    ts[a[1]].t = a[2] == "wall" ? std::shared_ptr< timer >( new wall_timer ) : std::shared_ptr< timer >( new cpu_timer );
    with( a, e, []( timer& ) {} );
  };
  R.ops["start"] = [=]( args_t const& a, ev& e ) { with( a, e, []( timer& t ) { t.start(); } ); };
  R.ops["stop"] = [=]( args_t const& a, ev& e ) { with( a, e, []( timer& t ) { t.stop(); } ); };
  R.ops["elapsed"] = [=]( args_t const& a, ev& e ) {
    double v = 0;
    with( a, e, [&]( timer& t ) { v = t.elapsed(); } );
    e.i( "us", std::isfinite( v ) && std::fabs( v ) < 2000 ? llround( v * 1e6 ) : 2000000001 );
  };
  R.ops["pass"] = []( args_t const& a, ev& ) { pass( a[1] == "t" || a[1] == "sleep" ? "sleep" : "burn", N( a[2] ) ); };
  R.ops["scoped"] = []( args_t const& a, ev& e ) { if( a[1] == "wall" ) { scoped< wall_timer >( a, e, wall_now ); } else { scoped< cpu_timer >( a, e, cpu_now ); } };
}

// usage: h_small FAMILY SCRIPT OUT WORK
int main( int argc, char** argv )
{
  hc::runner R;
  std::string const f = argv[1];
  if( f == "tok" ) { tokens( R ); }
  if( f == "time" ) { timers( R ); }
  return R.main( argc, argv );
}
