// Conformance harness: timestamps (C17).
#include "hcommon.h"
#include <vital/types/timestamp.h>
using namespace kwiver::vital;
using hc::args_t;
using hc::ev;

int main( int argc, char** argv )
{
  hc::runner R;
  std::map< std::string, timestamp > ts;
  auto seen = [&]( ev& e, std::string const& h ) {
    timestamp const& x = ts[h];
    e.s( "h", h ).t( "vt", x.has_valid_time() ).t( "vf", x.has_valid_frame() ).t( "v", x.is_valid() ).i( "d", x.get_time_domain_index() )
      .s( "t", std::to_string( x.get_time_usec() ) ).s( "f", std::to_string( x.get_frame() ) );
  };
  auto N = []( std::string const& s ) { return strtoll( s.c_str(), 0, 10 ); };
  R.on_reset = [&] { ts.clear(); };
  R.ops["new"] = [&]( args_t const& a, ev& e ) { ts[a[1]] = timestamp(); seen( e, a[1] ); };
  R.ops["both"] = [&]( args_t const& a, ev& e ) { ts[a[1]] = timestamp( N( a[2] ), N( a[3] ) ); e.s( "a", a[2] ).s( "b", a[3] ); seen( e, a[1] ); };
  R.ops["copy"] = [&]( args_t const& a, ev& e ) { ts[a[1]] = ts[a[2]]; e.s( "g", a[2] ); seen( e, a[1] ); };
  R.ops["time"] = [&]( args_t const& a, ev& e ) { ts[a[1]].set_time_usec( N( a[2] ) ); e.s( "a", a[2] ); seen( e, a[1] ); };
  // "seconds" h 64ths-of-a-second
  R.ops["seconds"] = [&]( args_t const& a, ev& e ) {
    ts[a[1]].set_time_seconds( N( a[2] ) / 64. );
    e.s( "a", std::to_string( N( a[2] ) * 15625 ) );
    seen( e, a[1] );
  };
  R.ops["frame"] = [&]( args_t const& a, ev& e ) { ts[a[1]].set_frame( N( a[2] ) ); e.s( "a", a[2] ); seen( e, a[1] ); };
  R.ops["invalid"] = [&]( args_t const& a, ev& e ) { ts[a[1]].set_invalid(); seen( e, a[1] ); };
  R.ops["domain"] = [&]( args_t const& a, ev& e ) { ts[a[1]].set_time_domain_index( N( a[2] ) ); e.i( "a", N( a[2] ) ); seen( e, a[1] ); };
  R.ops["q"] = [&]( args_t const& a, ev& e ) { seen( e, a[1] ); };
  R.ops["cmp"] = [&]( args_t const& a, ev& e ) {
    timestamp const& x = ts[a[1]], & y = ts[a[2]];
    e.s( "h", a[1] ).s( "g", a[2] ).t( "eq", x == y ).t( "ne", x != y ).t( "lt", x < y ).t( "gt", x > y );
  };
  R.ops["print"] = [&]( args_t const& a, ev& e ) {
    std::ostringstream o;
    o << ts[a[1]];
    e.s( "h", a[1] ).s( "p", o.str() );
  };
  return R.main( argc, argv );
}
