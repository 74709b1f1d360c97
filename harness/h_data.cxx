// Conformance harness: track, landmark and camera files (C13, C14). Paths are relative to a scratch directory;
// "FULL" stands for /dev/full.
#include "hcommon.h"
#include <vital/types/track_set.h>
#include <vital/types/landmark_map.h>
#include <vital/types/camera_map.h>
#include <vital/io/track_set_io.h>
#include <vital/io/landmark_map_io.h>
#include <vital/io/camera_io.h>
#include <vital/io/camera_map_io.h>
#include <vital/exceptions/io.h>
#include <cmath>
#include <sys/stat.h>
using namespace kwiver::vital;
using hc::args_t;
using hc::ev;
typedef std::vector< std::string > sl_t;

static std::string num( double d )
{
  char b[64];
  snprintf( b, sizeof b, "%.17g", d );
  return b;
}
static std::string jl( sl_t const& v )
{
  std::string o = "[";
  for( size_t i = 0; i < v.size(); ++i ) { o += ( i ? "," : "" ) + hc::js( v[i] ); }
  return o + "]";
}
static std::string guard( std::function< void() > f )
{
  try { f(); return "ok"; }
  catch( file_not_found_exception const& ) { return "notfound"; }
  catch( file_not_read_exception const& ) { return "notread"; }
  catch( file_write_exception const& ) { return "write"; }
  catch( path_not_exists const& ) { return "nopath"; }
  catch( invalid_data const& ) { return "invalid"; }
  catch( std::exception const& e ) { return std::string( "other " ) + e.what(); }
  catch( ... ) { return "unknown"; }
}
static void mkdirs( std::string const& p )
{
  for( size_t i = 1; i <= p.size(); ++i ) { if( i == p.size() || p[i] == '/' ) { mkdir( p.substr( 0, i ).c_str(), 0755 ); } }
}
static std::string tracks_json( track_set_sptr s )
{
  std::string o = "[";
  for( auto const& t : s->tracks() )
  {
    o += ( o.size() > 1 ? "," : "" ) + std::string( "{\"id\":" ) + hc::js( std::to_string( t->id() ) ) + ",\"st\":[";
    bool first = true;
    for( auto const& st : *t )
    {
      feature const& f = *st.feat;
      o += ( first ? "" : "," ) + jl( { std::to_string( st.frame_id ), num( f.loc()[0] ), num( f.loc()[1] ), num( f.magnitude() ), num( f.scale() ), num( f.angle() ),
                                        std::to_string( f.color().r ), std::to_string( f.color().g ), std::to_string( f.color().b ) } );
      first = false;
    }
    o += "]}";
  }
  return o + "]";
}
static std::string landmarks_json( landmark_map_sptr s )
{
  std::string o = "[";
  for( auto const& p : s->landmarks() )
  {
    landmark const& m = *p.second;
    o += ( o.size() > 1 ? "," : "" ) + std::string( "{\"id\":" ) + hc::js( std::to_string( p.first ) ) + ",\"v\":" +
         jl( { num( m.loc()[0] ), num( m.loc()[1] ), num( m.loc()[2] ), num( m.normal()[0] ), num( m.normal()[1] ), num( m.normal()[2] ),
               std::to_string( m.color().r ), std::to_string( m.color().g ), std::to_string( m.color().b ), std::to_string( m.observations() ) } ) + "}";
  }
  return o + "]";
}
static std::string ints( double const* d, size_t n )
{
  std::string o = "[";
  for( size_t i = 0; i < n; ++i ) { o += ( i ? "," : "" ) + std::to_string( std::isfinite( d[i] ) && std::fabs( d[i] ) < 2e5 ? llround( d[i] * 10000 ) : -2147480000LL ); }
  return o + "]";
}
static std::string camera_json( camera_sptr c )
{
  if( !c ) { return "{\"k\":[],\"r\":[],\"t\":[],\"d\":[]}"; }
  Eigen::Matrix< double, 3, 3, Eigen::RowMajor > K = c->intrinsics()->as_matrix(), Rm = matrix_3x3d( c->rotation() );
  vector_3d t = c->translation();
  std::vector< double > d = c->intrinsics()->dist_coeffs();
  return "{\"k\":" + ints( K.data(), 9 ) + ",\"r\":" + ints( Rm.data(), 9 ) + ",\"t\":" + ints( t.data(), 3 ) + ",\"d\":" + ints( d.data(), d.size() ) + "}";
}

int main( int argc, char** argv )
{
  hc::runner R;
  std::string root;
  int nroot = 0;
  auto P = [&]( std::string const& p ) { return p == "FULL" ? std::string( "/dev/full" ) : p.empty() ? root : root + "/" + p; };
  auto D = []( std::string const& s ) { return strtod( s.c_str(), 0 ); };
  R.on_reset = [&] { root = R.work + "/" + std::to_string( ++nroot ); mkdirs( root ); };
  R.ops["mkdir"] = [&]( args_t const& a, ev& e ) { e.s( "p", a[1] ); mkdirs( P( a[1] ) ); };
  R.ops["put"] = [&]( args_t const& a, ev& e ) {
    e.s( "p", a[1] );
    size_t sl = P( a[1] ).rfind( '/' );
    mkdirs( P( a[1] ).substr( 0, sl ) );
    std::ofstream o( P( a[1] ).c_str() );
    std::string l = "[";
    for( size_t i = 2; i < a.size(); ++i )
    {
      o << a[i] << "\n";
      std::istringstream is( a[i] );
      sl_t w;
      for( std::string x; is >> x; ) { w.push_back( x ); }
      l += ( i > 2 ? "," : "" ) + jl( w );
    }
    e.raw( "l", l + "]" );
  };
  R.ops["putcam"] = [&]( args_t const& a, ev& e ) {
    mkdirs( P( a[1] ).substr( 0, P( a[1] ).rfind( '/' ) ) );
    std::ofstream o( P( a[1] ).c_str() );
    sl_t w( a.begin() + 2, a.end() );
    for( size_t i = 0; i < w.size(); ++i ) { o << w[i] << ( i < 21 && i % 3 == 2 ? "\n" : " " ) << ( i == 8 || i == 17 || i == 20 ? "\n" : "" ); }
    if( w.size() > 21 ) { o << "\n"; }
    e.s( "p", a[1] ).sl( "w", w );
  };
  // path, then per track: "T", id, d|f, and per state "S" frame x y mag scale angle r g b
  R.ops["wtrk"] = [&]( args_t const& a, ev& e ) {
    std::vector< track_sptr > v;
    bool flt = false;
    for( size_t i = 2; i < a.size(); )
    {
      if( a[i] == "T" )
      {
        v.push_back( std::make_shared< track >() );
        v.back()->set_id( atoll( a[i + 1].c_str() ) );
        flt = a[i + 2] == "f";
        i += 3;
        continue;
      }
      rgb_color c( atoi( a[i + 7].c_str() ), atoi( a[i + 8].c_str() ), atoi( a[i + 9].c_str() ) );
      feature_sptr f;
      if( flt ) { f = std::make_shared< feature_f >( vector_2f( D( a[i + 2] ), D( a[i + 3] ) ), D( a[i + 4] ), D( a[i + 5] ), D( a[i + 6] ), c ); }
      else { f = std::make_shared< feature_d >( vector_2d( D( a[i + 2] ), D( a[i + 3] ) ), D( a[i + 4] ), D( a[i + 5] ), D( a[i + 6] ), c ); }
      v.back()->append( track::track_state( atoll( a[i + 1].c_str() ), f, descriptor_sptr() ) );
      i += 10;
    }
    track_set_sptr s = std::make_shared< simple_track_set >( v );
    e.s( "p", a[1] ).raw( "v", tracks_json( s ) );
    e.s( "r", guard( [&] { write_track_file( s, P( a[1] ) ); } ) );
  };
  R.ops["rtrk"] = [&]( args_t const& a, ev& e ) {
    track_set_sptr s = std::make_shared< simple_track_set >();
    e.s( "p", a[1] ).s( "r", guard( [&] { s = read_track_file( P( a[1] ) ); } ) ).raw( "v", tracks_json( s ) );
  };
  // path, then per landmark: d|f id x y z nx ny nz r g b obs
  R.ops["wply"] = [&]( args_t const& a, ev& e ) {
    landmark_map::map_landmark_t m;
    for( size_t i = 2; i + 11 < a.size(); i += 12 )
    {
      rgb_color c( atoi( a[i + 8].c_str() ), atoi( a[i + 9].c_str() ), atoi( a[i + 10].c_str() ) );
      vector_3d x( D( a[i + 2] ), D( a[i + 3] ), D( a[i + 4] ) ), n( D( a[i + 5] ), D( a[i + 6] ), D( a[i + 7] ) );
      if( a[i] == "f" )
      {
        auto l = std::make_shared< landmark_f >( x.cast< float >() );
        l->set_normal( n.cast< float >() ); l->set_color( c ); l->set_observations( strtoul( a[i + 11].c_str(), 0, 10 ) );
        m[atoll( a[i + 1].c_str() )] = l;
      }
      else
      {
        auto l = std::make_shared< landmark_d >( x );
        l->set_normal( n ); l->set_color( c ); l->set_observations( strtoul( a[i + 11].c_str(), 0, 10 ) );
        m[atoll( a[i + 1].c_str() )] = l;
      }
    }
    landmark_map_sptr s = std::make_shared< simple_landmark_map >( m );
    e.s( "p", a[1] ).raw( "v", landmarks_json( s ) );
    e.s( "r", guard( [&] { write_ply_file( s, P( a[1] ) ); } ) );
  };
  R.ops["rply"] = [&]( args_t const& a, ev& e ) {
    landmark_map_sptr s = std::make_shared< simple_landmark_map >();
    e.s( "p", a[1] ).s( "r", guard( [&] { s = read_ply_file( P( a[1] ) ); } ) ).raw( "v", landmarks_json( s ) );
  };
  // path fx skew cx fy cy  qw qx qy qz  center(3)  d...
  R.ops["wcam"] = [&]( args_t const& a, ev& e ) {
    double fx = D( a[2] ), fy = D( a[5] );
    Eigen::VectorXd d( a.size() - 14 );
    for( size_t i = 14; i < a.size(); ++i ) { d[i - 14] = D( a[i] ); }
    camera_intrinsics_sptr k = std::make_shared< simple_camera_intrinsics >( fx, vector_2d( D( a[4] ), D( a[6] ) ), fx / fy, D( a[3] ), d );
    Eigen::Quaterniond q( D( a[7] ), D( a[8] ), D( a[9] ), D( a[10] ) );
    q.normalize();
    camera_sptr c = std::make_shared< simple_camera >( vector_3d( D( a[11] ), D( a[12] ), D( a[13] ) ), rotation_d( q ), k );
    e.s( "p", a[1] ).raw( "v", camera_json( c ) );
    e.s( "r", guard( [&] { write_krtd_file( *c, P( a[1] ) ); } ) );
  };
  R.ops["rcam"] = [&]( args_t const& a, ev& e ) {
    camera_sptr c;
    e.s( "p", a[1] ).s( "r", guard( [&] { c = read_krtd_file( P( a[1] ) ); } ) ).raw( "v", camera_json( c ) );
  };
  R.ops["rcams"] = [&]( args_t const& a, ev& e ) {
    camera_map_sptr m = std::make_shared< simple_camera_map >();
    sl_t img( a.begin() + 2, a.end() );
    e.s( "p", a[1] ).sl( "img", img ).s( "r", guard( [&] { m = read_krtd_files( img, P( a[1] ) ); } ) );
    std::vector< long long > k;
    std::string c = "[";
    for( auto const& p : m->cameras() ) { k.push_back( p.first ); c += ( c.size() > 1 ? "," : "" ) + camera_json( p.second ); }
    e.il( "keys", k ).raw( "cams", c + "]" );
  };
  return R.main( argc, argv );
}
