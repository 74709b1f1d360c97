// Conformance harness: tracks and track sets (C11, C12).
#include "hcommon.h"
#include <vital/types/track_set.h>
#include <vital/types/descriptor.h>
#include <cmath>
using namespace kwiver::vital;
using hc::args_t;
using hc::ev;
typedef long long ll;

// a track set that provides nothing but its tracks
struct bare_set : public track_set
{
  std::vector< track_sptr > d;
  virtual std::vector< track_sptr > tracks() const { return d; }
};

int main( int argc, char** argv )
{
  hc::runner R;
  std::map< std::string, track_sptr > tr;
  std::map< feature const*, ll > ft;
  std::map< descriptor const*, ll > dt;
  std::map< ll, feature_sptr > fo;
  std::map< ll, descriptor_sptr > dd;
  track_set_sptr set;
  ll base = 0;
  auto N = []( std::string const& s ) { return atoll( s.c_str() ); };
  auto feat = [&]( ll k ) -> feature_sptr {
    if( !k ) { return feature_sptr(); }
    if( !fo[k] ) { fo[k] = std::make_shared< feature_d >(); ft[fo[k].get()] = k; }
    return fo[k];
  };
  auto desc = [&]( ll k ) -> descriptor_sptr {
    if( !k ) { return descriptor_sptr(); }
    if( !dd[k] ) { dd[k] = std::make_shared< descriptor_dynamic< double > >( 1 ); dt[dd[k].get()] = k; }
    return dd[k];
  };
  auto ftok = [&]( feature_sptr const& f ) -> ll { return f ? ft.count( f.get() ) ? ft[f.get()] : -1 : 0; };
  auto dtok = [&]( descriptor_sptr const& f ) -> ll { return f ? dt.count( f.get() ) ? dt[f.get()] : -1 : 0; };
  auto rel = [&]( ll f ) -> ll { return base && f == 0 ? 0 : f - base; };
  auto frames = [&]( std::set< frame_id_t > const& s ) { std::vector< ll > v; for( auto f : s ) { v.push_back( f - base ); } return v; };
  auto names = [&]( std::vector< track_sptr > const& v ) {
    std::vector< std::string > o;
    for( auto const& t : v )
    {
      std::string n = "?";
      for( auto const& p : tr ) { if( p.second == t ) { n = p.first; } }
      o.push_back( n );
    }
    return o;
  };
  auto state = [&]( std::string const& f, std::string const& a, std::string const& d ) { return track::track_state( N( f ) + base, feat( N( a ) ), desc( N( d ) ) ); };
  auto stev = [&]( ev& e, std::string const& f, std::string const& a, std::string const& d ) { e.il( "st", std::vector< ll >{ N( f ), N( a ), N( d ) } ); };

  R.on_reset = [&] { tr.clear(); set.reset(); base = 0; };
  R.ops["base"] = [&]( args_t const& a, ev& e ) { base = N( a[1] ); e.t( "big", base != 0 ); };
  R.ops["tnew"] = [&]( args_t const& a, ev& e ) { e.s( "h", a[1] ); tr[a[1]] = std::make_shared< track >(); };
  R.ops["tstate"] = [&]( args_t const& a, ev& e ) { e.s( "h", a[1] ); stev( e, a[2], a[3], a[4] ); tr[a[1]] = std::make_shared< track >( state( a[2], a[3], a[4] ) ); };
  R.ops["tcopy"] = [&]( args_t const& a, ev& e ) { e.s( "h", a[1] ).s( "g", a[2] ); tr[a[1]] = std::make_shared< track >( *tr[a[2]] ); };
  R.ops["setid"] = [&]( args_t const& a, ev& e ) { e.s( "h", a[1] ).i( "v", N( a[2] ) ); tr[a[1]]->set_id( N( a[2] ) ); };
  R.ops["append"] = [&]( args_t const& a, ev& e ) { e.s( "h", a[1] ); stev( e, a[2], a[3], a[4] ); e.t( "r", tr[a[1]]->append( state( a[2], a[3], a[4] ) ) ); };
  R.ops["appendt"] = [&]( args_t const& a, ev& e ) { e.s( "h", a[1] ).s( "g", a[2] ); e.t( "r", tr[a[1]]->append( *tr[a[2]] ) ); };
  R.ops["q"] = [&]( args_t const& a, ev& e ) {
    track const& t = *tr[a[1]];
    e.s( "h", a[1] ).i( "id", t.id() ).i( "size", t.size() ).t( "empty", t.empty() ).i( "first", rel( t.first_frame() ) ).i( "last", rel( t.last_frame() ) );
    e.il( "frames", frames( t.all_frame_ids() ) );
    std::string o = "[";
    for( auto i = t.begin(); i != t.end(); ++i )
    {
      o += ( o.size() > 1 ? "," : "" ) + std::string( "[" ) + std::to_string( (ll) i->frame_id - base ) + "," + std::to_string( ftok( i->feat ) ) + "," + std::to_string( dtok( i->desc ) ) + "]";
    }
    e.raw( "states", o + "]" );
  };
  R.ops["find"] = [&]( args_t const& a, ev& e ) {
    track const& t = *tr[a[1]];
    std::vector< ll > f, r;
    for( size_t i = 2; i < a.size(); ++i )
    {
      f.push_back( N( a[i] ) );
      auto it = t.find( N( a[i] ) + base );
      r.push_back( it == t.end() ? 0 : it - t.begin() + 1 );
    }
    e.s( "h", a[1] ).il( "f", f ).il( "r", r );
  };
  R.ops["set"] = [&]( args_t const& a, ev& e ) {
    std::vector< track_sptr > v;
    for( size_t i = 2; i < a.size(); ++i ) { v.push_back( tr[a[i]] ); }
    if( a[1] == "s" ) { set = std::make_shared< simple_track_set >( v ); }
    else { auto b = std::make_shared< bare_set >(); b->d = v; set = b; }
    e.sl( "m", names( v ) );
    v.clear();
  };
  R.ops["sq"] = [&]( args_t const& a, ev& e ) {
    std::vector< ll > ids;
    for( auto i : set->all_track_ids() ) { ids.push_back( i ); }
    e.i( "size", set->size() ).t( "empty", set->empty() ).il( "frames", frames( set->all_frame_ids() ) ).il( "ids", ids );
    e.i( "first", rel( set->first_frame() ) ).i( "last", rel( set->last_frame() ) ).sl( "tracks", names( set->tracks() ) );
  };
  auto off = [&]( std::string const& o ) -> ll { return N( o ) < 0 ? N( o ) : N( o ) + base; };
  R.ops["on"] = [&]( args_t const& a, ev& e ) {
    ll o = off( a[1] );
    std::vector< ll > fs, ds;
    // the queries in different orders and, for the last frame, also with the default argument
    bool d = o == -1 && a.size() > 2;
    auto ff = d ? set->frame_features() : set->frame_features( o );
    auto fd = d ? set->frame_descriptors() : set->frame_descriptors( o );
    for( auto const& x : ff->features() ) { fs.push_back( ftok( x ) ); }
    for( auto const& x : fd->descriptors() ) { ds.push_back( dtok( x ) ); }
    e.i( "o", N( a[1] ) ).il( "feat", fs ).il( "desc", ds );
    e.sl( "active", names( ( d ? set->active_tracks() : set->active_tracks( o ) )->tracks() ) );
    e.sl( "inactive", names( ( d ? set->inactive_tracks() : set->inactive_tracks( o ) )->tracks() ) );
    e.sl( "new", names( ( d ? set->new_tracks() : set->new_tracks( o ) )->tracks() ) );
    e.sl( "term", names( ( d ? set->terminated_tracks() : set->terminated_tracks( o ) )->tracks() ) );
  };
  R.ops["lastf"] = [&]( args_t const& a, ev& e ) {
    std::vector< ll > fs, ds;
    for( auto const& x : set->last_frame_features()->features() ) { fs.push_back( ftok( x ) ); }
    for( auto const& x : set->last_frame_descriptors()->descriptors() ) { ds.push_back( dtok( x ) ); }
    e.il( "feat", fs ).il( "desc", ds );
  };
  R.ops["pct"] = [&]( args_t const& a, ev& e ) {
    bool d = a.size() > 3;
    double p = d ? set->percentage_tracked() : set->percentage_tracked( off( a[1] ), off( a[2] ) );
    e.i( "o", N( a[1] ) ).i( "p", N( a[2] ) ).i( "r", std::isfinite( p ) ? llround( p * 720720 ) : -1 );
  };
  R.ops["byid"] = [&]( args_t const& a, ev& e ) {
    auto t = set->get_track( N( a[1] ) );
    e.i( "v", N( a[1] ) ).s( "r", t ? names( { t } )[0] : std::string() );
  };
  return R.main( argc, argv );
}
