// Conformance harness: what the front-ends of the algorithms hand to implementations (C30).
#include "hcommon.h"
#include <algorithm>
#include <sstream>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <vital/algo/estimate_homography.h>
#include <vital/algo/estimate_fundamental_matrix.h>
#include <vital/algo/estimate_essential_matrix.h>
#include <vital/algo/estimate_similarity_transform.h>
#include <vital/algo/filter_features.h>
#include <vital/algo/optimize_cameras.h>
#include <vital/algo/image_io.h>
#include <vital/algo/geo_map.h>
#include <vital/exceptions.h>
#include <vital/types/landmark_map.h>
#include <vital/types/camera_map.h>
using namespace kwiver::vital;
using hc::args_t;
using hc::ev;
typedef std::vector< std::vector< long > > table;

// "1,2;3,4" -> rows
static table rows( std::string const& t )
{
  table r;
  std::istringstream s( t );
  std::string row, w;
  while( std::getline( s, row, ';' ) )
  {
    r.push_back( std::vector< long >() );
    std::istringstream q( row );
    while( std::getline( q, w, ',' ) ) { r.back().push_back( atol( w.c_str() ) ); }
  }
  return r;
}
static std::string js( std::vector< long > const& v )
{
  std::string o = "[";
  for( size_t i = 0; i < v.size(); ++i ) { o += ( i ? "," : "" ) + std::to_string( v[i] ); }
  return o + "]";
}
static std::string js( table const& v )
{
  std::string o = "[";
  for( size_t i = 0; i < v.size(); ++i ) { o += ( i ? "," : "" ) + js( v[i] ); }
  return o + "]";
}
static long whole( double d ) { return d == (long) d ? (long) d : 987654321; }
static std::vector< long > vec( vector_2d const& v ) { return { whole( v.x() ), whole( v.y() ) }; }
static std::vector< long > vec( vector_3d const& v ) { return { whole( v.x() ), whole( v.y() ), whole( v.z() ) }; }
template< class V > static table vecs( std::vector< V > const& v ) { table r; for( auto const& x : v ) { r.push_back( vec( x ) ); } return r; }

// ---- recording implementations
struct call { table a, b; double scale; int c1, c2; size_t inl; };
static std::vector< call > calls;
static std::vector< camera_intrinsics_sptr > cals;
static int calid( camera_intrinsics_sptr const& c ) { for( size_t i = 0; i < cals.size(); ++i ) { if( cals[i] == c ) { return i + 1; } } return 0; }
static homography_sptr theH;
static fundamental_matrix_sptr theF;
static essential_matrix_sptr theE;
static void mark( std::vector< bool >& inl, size_t n ) { inl.assign( n, false ); for( size_t i = 0; i < n; i += 2 ) { inl[i] = true; } }

#define COMMON( T, B ) virtual std::string impl_name() const { return "rec"; } virtual std::string description() const { return ""; } \
  virtual base_sptr clone() const { return base_sptr(); } virtual algorithm_sptr base_clone() const { return algorithm_sptr(); } virtual void set_configuration( config_block_sptr ) {} virtual bool check_configuration( config_block_sptr ) const { return true; }
struct rhom : public algo::estimate_homography
{
  COMMON( rhom, 0 )
  using algo::estimate_homography::estimate;
  virtual homography_sptr estimate( std::vector< vector_2d > const& a, std::vector< vector_2d > const& b, std::vector< bool >& inl, double s ) const
  { calls.push_back( call{ vecs( a ), vecs( b ), s, 0, 0, inl.size() } ); mark( inl, a.size() ); return theH; }
};
struct rfun : public algo::estimate_fundamental_matrix
{
  COMMON( rfun, 0 )
  using algo::estimate_fundamental_matrix::estimate;
  virtual fundamental_matrix_sptr estimate( std::vector< vector_2d > const& a, std::vector< vector_2d > const& b, std::vector< bool >& inl, double s ) const
  { calls.push_back( call{ vecs( a ), vecs( b ), s, 0, 0, inl.size() } ); mark( inl, a.size() ); return theF; }
};
struct ress : public algo::estimate_essential_matrix
{
  COMMON( ress, 0 )
  using algo::estimate_essential_matrix::estimate;
  virtual essential_matrix_sptr estimate( std::vector< vector_2d > const& a, std::vector< vector_2d > const& b, camera_intrinsics_sptr const c, camera_intrinsics_sptr const d, std::vector< bool >& inl, double s ) const
  { calls.push_back( call{ vecs( a ), vecs( b ), s, calid( c ), calid( d ), inl.size() } ); mark( inl, a.size() ); return theE; }
};
struct rsim : public algo::estimate_similarity_transform
{
  COMMON( rsim, 0 )
  using algo::estimate_similarity_transform::estimate_transform;
  virtual similarity_d estimate_transform( std::vector< vector_3d > const& a, std::vector< vector_3d > const& b ) const
  {
    calls.push_back( call{ vecs( a ), vecs( b ), 0, 0, 0, 0 } );
    return similarity_d( 3.0, rotation_d(), vector_3d( 1, 2, 4 ) );
  }
};
static std::vector< long > keep, gotids;
static feature_set_sptr gotset;
static long ftok( feature_sptr const& f ) { return f ? whole( f->loc().x() ) : -1; }
struct rfil : public algo::filter_features
{
  COMMON( rfil, 0 )
  using algo::filter_features::filter;
  virtual feature_set_sptr filter( feature_set_sptr f, std::vector< unsigned int >& ind ) const
  {
    calls.push_back( call{ {}, {}, 0, 0, 0, ind.size() } );
    gotset = f;
    std::vector< feature_sptr > v = f->features(), w;
    for( long k : keep ) { w.push_back( v[k] ); ind.push_back( k ); }
    return feature_set_sptr( new simple_feature_set( w ) );
  }
};
static long ctok( camera_sptr const& c ) { return c ? whole( c->center().x() ) : -1; }
struct rocall { long cam; std::vector< long > f, l; };
static std::vector< rocall > rocalls;
static std::string romode;
struct rocam : public algo::optimize_cameras
{
  COMMON( rocam, 0 )
  using algo::optimize_cameras::optimize;
  virtual void optimize( camera_sptr& c, std::vector< feature_sptr > const& f, std::vector< landmark_sptr > const& l ) const
  {
    rocall r;
    r.cam = ctok( c );
    for( auto const& x : f ) { r.f.push_back( ftok( x ) ); }
    for( auto const& x : l ) { r.l.push_back( x ? whole( x->loc().x() ) : -1 ); }
    rocalls.push_back( r );
    if( romode == "new" ) { c = camera_sptr( new simple_camera( vector_3d( r.cam + 1000, 0, 0 ), rotation_d() ) ); }
    else if( romode == "odd" && r.cam % 2 ) { c = camera_sptr( new simple_camera( vector_3d( r.cam + 1000, 0, 0 ), rotation_d() ) ); }
    else if( romode == "throw" && r.f.empty() ) { throw invalid_value( "nothing to go by" ); }
  }
};
static std::vector< std::string > iocalls;
static image_container_sptr theI;
static bool sameI;
struct rio : public algo::image_io
{
  COMMON( rio, 0 )
  virtual image_container_sptr load_( std::string const& f ) const { iocalls.push_back( "load:" + f ); return theI; }
  virtual void save_( std::string const& f, image_container_sptr d ) const { iocalls.push_back( "save:" + f ); sameI = d == theI; }
};
struct rgeo : public algo::geo_map
{
  COMMON( rgeo, 0 )
  virtual void utm_to_latlon( double, double, int, bool, double&, double& ) const {}
  virtual void latlon_to_utm( double, double, double&, double&, int&, bool&, int ) const {}
};

static feature_set_sptr fset( table const& t, bool flt )
{
  std::vector< feature_sptr > v;
  for( auto const& r : t )
  {
    if( flt ) { v.push_back( feature_sptr( new feature_f( vector_2f( r[0], r[1] ) ) ) ); }
    else { v.push_back( feature_sptr( new feature_d( vector_2d( r[0], r[1] ) ) ) ); }
  }
  return feature_set_sptr( new simple_feature_set( v ) );
}
static vector_3d pos( long t ) { return vector_3d( t, 2 * t, -t ); }
static std::string camjs( camera_map_sptr const& m )
{
  table r;
  if( m ) { for( auto const& p : m->cameras() ) { r.push_back( { (long) p.first, ctok( p.second ) } ); } }
  return js( r );
}
static void callsjs( ev& e )
{
  std::string o = "[";
  for( size_t i = 0; i < calls.size(); ++i )
  {
    o += std::string( i ? "," : "" ) + "{\"a\":" + js( calls[i].a ) + ",\"b\":" + js( calls[i].b ) + ",\"scale\":" + std::to_string( whole( calls[i].scale * 4 ) )
         + ",\"c1\":" + std::to_string( calls[i].c1 ) + ",\"c2\":" + std::to_string( calls[i].c2 ) + "}";
  }
  e.raw( "calls", o + "]" );
}
static table outs( std::vector< bool > const& v ) { table r; for( bool b : v ) { r.push_back( { b } ); } return r; }
static table pts2( table const& t, std::vector< vector_2d >& v ) { for( auto const& r : t ) { v.push_back( vector_2d( r[0], r[1] ) ); } return t; }

int main( int argc, char** argv )
{
  hc::runner R;
  std::string base;
  int n = 0;
  R.on_reset = [&]() {
    calls.clear(); rocalls.clear(); iocalls.clear(); gotset.reset();
    base = R.work + "/t" + std::to_string( n++ );
    mkdir( base.c_str(), 0755 );
    mkdir( ( base + "/d" ).c_str(), 0755 );
    mkdir( ( base + "/d/e" ).c_str(), 0755 );
    std::ofstream( base + "/f" ) << "x";
    std::ofstream( base + "/d/g" ) << "x";
    (void) !symlink( "d", ( base + "/l" ).c_str() );
    (void) !symlink( "../f", ( base + "/d/k" ).c_str() );
    (void) !symlink( "none", ( base + "/n" ).c_str() );
    if( chdir( base.c_str() ) ) { abort(); }
  };
  // kind, features, features, matches, scale in quarters or "", stale flags
  R.ops["est"] = [&]( args_t const& a, ev& e ) {
    std::string const k = a[1];
    table const f1 = rows( a[2] ), f2 = rows( a[3] ), m = rows( a[4] );
    bool const dflt = a[5].empty(), flt = a[6] == "f";
    double const sc = dflt ? 1.0 : atoi( a[5].c_str() ) / 4.0;
    calls.clear();
    theH = homography_sptr( new homography_< double >() );
    theF = fundamental_matrix_sptr( new fundamental_matrix_d( matrix_3x3d( matrix_3x3d::Identity() ) ) );
    theE = essential_matrix_sptr( new essential_matrix_d( rotation_d(), vector_3d( 1, 0, 0 ) ) );
    cals.assign( 2, camera_intrinsics_sptr() );
    for( auto& c : cals ) { c.reset( new simple_camera_intrinsics() ); }
    std::vector< match > mv;
    for( auto const& r : m ) { mv.push_back( match( r[0], r[1] ) ); }
    match_set_sptr ms( new simple_match_set( mv ) );
    std::vector< bool > inl( atoi( a[7].c_str() ), true );
    rhom h; rfun u; ress s;
    algo::estimate_homography const& H = h;
    algo::estimate_fundamental_matrix const& U = u;
    algo::estimate_essential_matrix const& S = s;
    bool same = false;
    feature_set_sptr p = fset( f1, flt ), q = fset( f2, flt );
    if( k == "hom" ) { same = ( dflt ? H.estimate( p, q, ms, inl ) : H.estimate( p, q, ms, inl, sc ) ) == theH; }
    else if( k == "fund" ) { same = ( dflt ? U.estimate( p, q, ms, inl ) : U.estimate( p, q, ms, inl, sc ) ) == theF; }
    else if( k == "ess2" ) { same = ( dflt ? S.estimate( p, q, ms, cals[0], cals[1], inl ) : S.estimate( p, q, ms, cals[0], cals[1], inl, sc ) ) == theE; }
    else if( k == "ess1" ) { same = ( dflt ? S.estimate( p, q, ms, cals[1], inl ) : S.estimate( p, q, ms, cals[1], inl, sc ) ) == theE; }
    else
    {
      std::vector< vector_2d > x, y;
      pts2( f1, x ); pts2( f2, y );
      same = ( dflt ? S.estimate( x, y, cals[1], inl ) : S.estimate( x, y, cals[1], inl, sc ) ) == theE;
    }
    e.s( "k", k ).raw( "f1", js( f1 ) ).raw( "f2", js( f2 ) ).raw( "m", js( m ) ).i( "scale", dflt ? 4 : atoi( a[5].c_str() ) ).t( "same", same ).raw( "out", js( outs( inl ) ) );
    callsjs( e );
  };
  // kind, tokens or id,token pairs
  R.ops["sim"] = [&]( args_t const& a, ev& e ) {
    std::string const k = a[1];
    table const x = rows( a[2] ), y = rows( a[3] );
    calls.clear();
    rsim r;
    algo::estimate_similarity_transform const& S = r;
    similarity_d t;
    if( k == "cams" || k == "lms" )
    {
      if( k == "cams" )
      {
        std::vector< camera_sptr > p, q;
        for( auto const& v : x ) { p.push_back( camera_sptr( new simple_camera( pos( v[1] ), rotation_d() ) ) ); }
        for( auto const& v : y ) { q.push_back( camera_sptr( new simple_camera( pos( v[1] ), rotation_d() ) ) ); }
        t = S.estimate_transform( p, q );
      }
      else
      {
        std::vector< landmark_sptr > p, q;
        for( auto const& v : x ) { p.push_back( landmark_sptr( new landmark_d( pos( v[1] ) ) ) ); }
        for( auto const& v : y ) { q.push_back( landmark_sptr( new landmark_f( pos( v[1] ).cast< float >() ) ) ); }
        t = S.estimate_transform( p, q );
      }
    }
    else if( k == "cmap" )
    {
      camera_map::map_camera_t p, q;
      for( auto const& v : x ) { p[v[0]] = camera_sptr( new simple_camera( pos( v[1] ), rotation_d() ) ); }
      for( auto const& v : y ) { q[v[0]] = camera_sptr( new simple_camera( pos( v[1] ), rotation_d() ) ); }
      t = S.estimate_transform( camera_map_sptr( new simple_camera_map( p ) ), camera_map_sptr( new simple_camera_map( q ) ) );
    }
    else
    {
      landmark_map::map_landmark_t p, q;
      for( auto const& v : x ) { p[v[0]] = landmark_sptr( new landmark_d( pos( v[1] ) ) ); }
      for( auto const& v : y ) { q[v[0]] = landmark_sptr( new landmark_d( pos( v[1] ) ) ); }
      t = S.estimate_transform( landmark_map_sptr( new simple_landmark_map( p ) ), landmark_map_sptr( new simple_landmark_map( q ) ) );
    }
    e.s( "k", k ).raw( "x", js( x ) ).raw( "y", js( y ) ).t( "same", t.scale() == 3.0 && t.translation() == vector_3d( 1, 2, 4 ) );
    callsjs( e );
  };
  // features, descriptors, kept, which
  R.ops["filter"] = [&]( args_t const& a, ev& e ) {
    table const f = rows( a[1] );
    int const nd = atoi( a[2].c_str() );
    table const kt = rows( a[3] );
    keep = kt.empty() ? std::vector< long >() : kt[0];
    calls.clear(); gotset.reset();
    rfil r;
    algo::filter_features const& F = r;
    feature_set_sptr p = fset( f, a[4] == "f" );
    std::vector< descriptor_sptr > d;
    for( int i = 0; i < nd; ++i )
    {
      auto x = std::make_shared< descriptor_dynamic< double > >( 1 );
      x->raw_data()[0] = 100 + i;
      d.push_back( x );
    }
    std::vector< long > rf, rd;
    bool both = a[5] == "both", own = true;
    feature_set_sptr res;
    if( both )
    {
      auto q = F.filter( p, descriptor_set_sptr( new simple_descriptor_set( d ) ) );
      res = q.first;
      for( auto const& x : q.second->descriptors() )
      {
        rd.push_back( x ? whole( x->as_double()[0] ) : -1 );
        own = own && std::find( d.begin(), d.end(), x ) != d.end();
      }
    }
    else { res = F.filter( p ); }
    for( auto const& x : res->features() ) { rf.push_back( ftok( x ) ); }
    e.raw( "f", js( f ) ).i( "nd", nd ).raw( "keep", js( keep ) ).t( "both", both ).t( "given", gotset == p ).i( "n", calls.size() ).raw( "rf", js( rf ) ).raw( "rd", js( rd ) ).t( "own", own );
  };
  // cameras, tracks, landmarks ("null"), what the implementation does
  R.ops["optcam"] = [&]( args_t const& a, ev& e ) {
    camera_map_sptr cm;
    track_set_sptr ts;
    landmark_map_sptr lm;
    table const c = a[1] == "null" ? table() : rows( a[1] ), l = a[3] == "null" ? table() : rows( a[3] );
    romode = a[4];
    rocalls.clear();
    camera_map::map_camera_t cs;
    for( auto const& v : c ) { cs[v[0]] = camera_sptr( new simple_camera( pos( v[1] ), rotation_d() ) ); }
    if( a[1] != "null" ) { cm.reset( new simple_camera_map( cs ) ); }
    landmark_map::map_landmark_t ls;
    for( auto const& v : l ) { ls[v[0]] = landmark_sptr( new landmark_d( pos( v[1] ) ) ); }
    if( a[3] != "null" ) { lm.reset( new simple_landmark_map( ls ) ); }
    std::string tj = "[";
    std::vector< track_sptr > tv;
    if( a[2] != "null" )
    {
      // id/frame,token;frame,token/id2/...
      std::istringstream s( a[2] );
      std::string id, st;
      while( std::getline( s, id, '/' ) )
      {
        std::getline( s, st, '/' );
        table const t = rows( st );
        track_sptr tr( new track );
        tr->set_id( atol( id.c_str() ) );
        for( auto const& v : t )
        {
          if( !tr->append( track::track_state( v[0], v[1] ? feature_sptr( new feature_d( vector_2d( v[1], 0 ) ) ) : feature_sptr(), descriptor_sptr() ) ) ) { abort(); }
        }
        tv.push_back( tr );
        tj += std::string( tj.size() > 1 ? "," : "" ) + "{\"id\":" + id + ",\"st\":" + js( t ) + "}";
      }
      ts.reset( new simple_track_set( tv ) );
    }
    rocam r;
    algo::optimize_cameras const& O = r;
    camera_map_sptr const was = cm;
    std::string exc;
    try { O.optimize( cm, ts, lm ); }
    catch( invalid_value const& ) { exc = "invalid_value"; }
    catch( std::exception const& x ) { exc = std::string( "other:" ) + x.what(); }
    std::string o = "[";
    for( size_t i = 0; i < rocalls.size(); ++i )
    {
      table p;
      o += std::string( i ? "," : "" ) + "{\"cam\":" + std::to_string( rocalls[i].cam ) + ",\"f\":" + js( rocalls[i].f ) + ",\"l\":" + js( rocalls[i].l ) + "}";
    }
    e.t( "nc", a[1] == "null" ).t( "nt", a[2] == "null" ).t( "nl", a[3] == "null" ).s( "mode", romode ).raw( "c", js( c ) ).raw( "t", tj + "]" ).raw( "l", js( l ) );
    e.s( "exc", exc ).raw( "calls", o + "]" ).raw( "res", camjs( cm ) ).raw( "was", camjs( was ) );
  };
  R.ops["zone"] = [&]( args_t const& a, ev& e ) {
    rgeo r;
    e.i( "lon", atol( a[2].c_str() ) ).i( "r", static_cast< algo::geo_map const& >( r ).latlon_zone( atol( a[1].c_str() ) / 4.0, atol( a[2].c_str() ) / 4.0 ) );
  };
  R.ops["io"] = [&]( args_t const& a, ev& e ) {
    bool const load = a[1] == "load", null = a[3] == "null";
    std::string const p = a[2][0] == '/' ? base + a[2] : a[2];
    iocalls.clear();
    theI = null ? image_container_sptr() : image_container_sptr( new simple_image_container( image( 2, 2 ) ) );
    sameI = true;
    rio r;
    algo::image_io const& I = r;
    std::string exc;
    bool same = true;
    try
    {
      if( load ) { same = I.load( p ) == theI; }
      else { I.save( p, theI ); same = sameI; }
    }
    catch( path_not_exists const& ) { exc = "path_not_exists"; }
    catch( path_not_a_file const& ) { exc = "path_not_a_file"; }
    catch( path_not_a_directory const& ) { exc = "path_not_a_directory"; }
    catch( std::exception const& x ) { exc = std::string( "other:" ) + x.what(); }
    e.t( "load", load ).s( "p", a[2] ).s( "exc", exc ).i( "n", iocalls.size() ).t( "given", iocalls.size() == 1 && iocalls[0] == ( load ? "load:" : "save:" ) + p ).t( "same", same );
  };
  return R.main( argc, argv );
}
