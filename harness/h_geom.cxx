// Conformance harness: rotations, similarities, cameras and their intrinsics, essential and fundamental matrices
// (C39).  Real numbers are reported as the fractions of least denominator within a tolerance, [0,0] when there is none.
#include "hcommon.h"
#include <cmath>
#include <memory>
#include <vital/types/camera.h>
#include <vital/types/camera_intrinsics.h>
#include <vital/types/essential_matrix.h>
#include <vital/types/fundamental_matrix.h>
#include <vital/types/rotation.h>
#include <vital/types/similarity.h>
#include <vital/io/eigen_io.h>
using namespace kwiver::vital;
using hc::args_t;
using hc::ev;

// ---------------------------------------------------------------- numbers
enum cls { FINE, MID, COARSE };
static std::string rat( double x, cls c, double size = 1.0 ) // size: of the largest number computed with it
{
  double const rel = c == FINE ? 4e-12 : c == MID ? 1e-8 : 2e-5;
  long long const most = c == FINE ? 40000 : c == MID ? 2000 : 64;
  if( std::isfinite( x ) && fabs( x ) < 1e6 )
  {
    double const tol = rel * std::max( std::max( 1.0, fabs( x ) ), size / 8 );
    for( long long q = 1; q <= most; ++q )
    {
      double const p = floor( x * q + 0.5 );
      if( fabs( x - p / q ) <= tol ) { return "[" + std::to_string( (long long) p ) + "," + std::to_string( q ) + "]"; }
    }
  }
  return "[0,0]";
}
template< class V > static std::string rats( V const& v, cls c )
{
  std::string o = "[";
  double const size = double( v.cwiseAbs().maxCoeff() );
  for( int i = 0; i < v.rows(); ++i )
  {
    for( int j = 0; j < v.cols(); ++j ) { o += ( o.size() > 1 ? "," : "" ) + rat( double( v( i, j ) ), c, size ); }
  }
  return o + "]";
}
template< class V > static std::string squares( V const& v, cls c )
{
  std::string o = "[";
  for( int i = 0; i < v.rows(); ++i )
  {
    for( int j = 0; j < v.cols(); ++j ) { double const x = double( v( i, j ) ); o += ( o.size() > 1 ? "," : "" ) + rat( x * fabs( x ), c ); }
  }
  return o + "]";
}
static double num( std::string const& s )
{
  size_t const p = s.find( '/' );
  return p == std::string::npos ? atof( s.c_str() ) : atof( s.substr( 0, p ).c_str() ) / atof( s.substr( p + 1 ).c_str() );
}
static std::string arat( std::string const& s )
{
  size_t const p = s.find( '/' );
  return p == std::string::npos ? "[" + s + ",1]" : "[" + s.substr( 0, p ) + "," + s.substr( p + 1 ) + "]";
}
// the arguments from i on, as numbers of the event
static void give( ev& e, char const* k, args_t const& a, size_t i, size_t n )
{
  std::string o = "[";
  for( size_t j = i; j < i + n; ++j ) { o += ( j > i ? "," : "" ) + arat( a[j] ); }
  e.raw( k, o + "]" );
}
static void ints( ev& e, char const* k, args_t const& a, size_t i, size_t n )
{
  std::string o = "[";
  for( size_t j = i; j < i + n; ++j ) { o += ( j > i ? "," : "" ) + a[j]; }
  e.raw( k, o + "]" );
}
template< class T > static Eigen::Matrix< T, 3, 1 > vec3( args_t const& a, size_t i ) { return Eigen::Matrix< T, 3, 1 >( T( num( a[i] ) ), T( num( a[i + 1] ) ), T( num( a[i + 2] ) ) ); }
template< class T > static Eigen::Matrix< T, 3, 3 > mat3( args_t const& a, size_t i )
{
  Eigen::Matrix< T, 3, 3 > m;
  for( int k = 0; k < 9; ++k ) { m( k / 3, k % 3 ) = T( num( a[i + k] ) ); }
  return m;
}
static double const PI = std::acos( -1.0 );

// ---------------------------------------------------------------- the objects
template< class T > struct world
{
  typedef rotation_< T > rot;
  typedef similarity_< T > sim;
  typedef Eigen::Matrix< T, 3, 1 > vec;
  typedef Eigen::Matrix< T, 3, 3 > mat;
  std::map< std::string, std::pair< rot, cls > > R;
  std::map< std::string, std::pair< sim, cls > > S;
  std::map< std::string, std::shared_ptr< essential_matrix_< T > > > E;
  std::map< std::string, std::shared_ptr< fundamental_matrix_< T > > > F;
  static cls own() { return sizeof( T ) == 8 ? FINE : COARSE; }
};
static world< double > WD;
static world< float > WF;
template< class T > world< T >& W();
template<> world< double >& W< double >() { return WD; }
template<> world< float >& W< float >() { return WF; }

// everything a rotation says about itself
template< class T > static void say( ev& e, rotation_< T > const& r, cls c )
{
  typedef Eigen::Matrix< T, 3, 1 > vec;
  typedef Eigen::Matrix< T, 3, 3 > mat;
  mat const m( r );
  e.raw( "m", rats( m, c ) );
  e.raw( "unit", rat( double( r.quaternion().squaredNorm() ), c ) );
  mat byv; // what it does to the basis
  for( int i = 0; i < 3; ++i ) { byv.col( i ) = r * vec( vec::Unit( i ) ); }
  e.raw( "v", rats( byv, c ) );
  vec const ax = r.axis();
  double const an = double( r.angle() );
  e.raw( "sin", rats( vec( ax * T( std::sin( an ) ) ), c ) ).raw( "cos", rat( std::cos( an ), c ) );
  e.raw( "axlen", rat( double( ax.norm() ), c ) );
  e.t( "range", an > -PI - 1e-9 && an <= PI + ( sizeof( T ) == 8 ? 1e-9 : 1e-6 ) );
  e.t( "noaxis", ax == vec( 0, 0, 1 ) );
  vec const ro = r.rodrigues();
  double const len = double( ro.norm() );
  e.raw( "rsin", rats( vec( len == 0 ? ro : vec( ro * T( std::sin( len ) / len ) ) ), c ) ).raw( "rcos", rat( std::cos( len ), c ) );
  e.t( "rrange", len <= PI + 1e-6 );
  // the same angle and axis make the same rotation again, and so does its matrix
  e.raw( "again", rats( mat( rotation_< T >( r.angle(), r.axis() ) ), c ) );
  e.raw( "ragain", rats( mat( rotation_< T >( r.rodrigues() ) ), c ) );
  e.raw( "magain", rats( mat( rotation_< T >( m ) ), c ) );
}
template< class T > static void put( ev& e, std::string const& d, rotation_< T > const& r, cls c )
{
  W< T >().R[d] = std::make_pair( r, c );
  e.s( "h", d ).s( "t", sizeof( T ) == 8 ? "d" : "f" );
  say( e, r, c );
}
static cls worse( cls a, cls b ) { return a > b ? a : b; }

template< class T, class U > static void cast_rot( args_t const& a, ev& e )
{
  e.s( "g", a[3] );
  auto const& x = W< U >().R.at( a[3] );
  put< T >( e, a[2], rotation_< T >( x.first ), worse( world< T >::own(), x.second ) );
}
template< class T > static void say( ev& e, similarity_< T > const& s, cls c )
{
  typedef Eigen::Matrix< T, 3, 1 > vec;
  typedef Eigen::Matrix< T, 4, 4 > mat;
  mat const m( s );
  e.raw( "s", rat( double( s.scale() ), c ) ).raw( "r", rats( Eigen::Matrix< T, 3, 3 >( s.rotation() ), c ) ).raw( "tr", rats( s.translation(), c ) );
  e.raw( "m", rats( m, c ) );
  mat byv = mat::Zero();
  for( int i = 0; i < 3; ++i ) { byv.col( i ).template head< 3 >() = s * vec( vec::Unit( i ) ); }
  byv.col( 3 ).template head< 3 >() = s * vec( vec::Zero() );
  e.raw( "v", rats( byv, c ) );
}
template< class T > static void put( ev& e, std::string const& d, similarity_< T > const& s, cls c )
{
  W< T >().S[d] = std::make_pair( s, c );
  e.s( "h", d ).s( "t", sizeof( T ) == 8 ? "d" : "f" );
  say( e, s, c );
}
template< class T, class U > static void cast_sim( args_t const& a, ev& e )
{
  e.s( "g", a[3] );
  auto const& x = W< U >().S.at( a[3] );
  put< T >( e, a[2], similarity_< T >( x.first ), worse( world< T >::own(), x.second ) );
}
template< class T > static void put( ev& e, std::string const& d, std::shared_ptr< essential_matrix_< T > > x, cls c )
{
  typedef Eigen::Matrix< T, 3, 3 > mat;
  W< T >().E[d] = x;
  essential_matrix const& b = *x;
  e.s( "h", d ).s( "t", sizeof( T ) == 8 ? "d" : "f" );
  e.raw( "r", rats( mat( x->get_rotation() ), c ) ).raw( "tr", squares( x->get_translation(), c ) ).raw( "e", squares( x->compute_matrix(), c ) );
  e.raw( "w", rats( mat( x->compute_twisted_rotation() ), c ) );
  e.raw( "br", rats( matrix_3x3d( b.rotation() ), c ) ).raw( "btr", squares( b.translation(), c ) ).raw( "be", squares( b.matrix(), c ) );
  e.raw( "bw", rats( matrix_3x3d( b.twisted_rotation() ), c ) ).raw( "bbw", rats( matrix_3x3d( b.essential_matrix::twisted_rotation() ), c ) );
}
template< class T > static void put( ev& e, std::string const& d, std::shared_ptr< fundamental_matrix_< T > > x, cls c )
{
  W< T >().F[d] = x;
  fundamental_matrix const& b = *x;
  e.s( "h", d ).s( "t", sizeof( T ) == 8 ? "d" : "f" );
  e.raw( "f", squares( b.matrix(), c ) );
}

template< class T > static bool typed( args_t const& a, ev& e )
{
  typedef world< T > w;
  typedef typename w::rot rot;
  typedef typename w::sim sim;
  typedef typename w::vec vec;
  typedef typename w::mat mat;
  std::string const& op = a[0];
  auto& R = W< T >().R;
  auto& S = W< T >().S;
  auto& E = W< T >().E;
  cls const own = w::own();
  // --- rotations
  if( op == "rq" ) // d how w x y z
  {
    ints( e, "q", a, 4, 4 );
    Eigen::Quaternion< T > q( T( num( a[4] ) ), T( num( a[5] ) ), T( num( a[6] ) ), T( num( a[7] ) ) );
    q.normalize();
    put< T >( e, a[2], a[3] == "v" ? rot( Eigen::Matrix< T, 4, 1 >( q.coeffs() ) ) : rot( q ), own );
  }
  else if( op == "rid" ) { put< T >( e, a[2], rot(), own ); }
  else if( op == "rm" ) // d n m11..m33
  {
    ints( e, "mm", a, 4, 9 );
    e.i( "n", atoi( a[3].c_str() ) );
    put< T >( e, a[2], rot( mat( mat3< T >( a, 4 ) / T( num( a[3] ) ) ) ), own );
  }
  else if( op == "raa" || op == "rrod" ) // d a b k x y z: the angle 2 atan2(b,a) + 2 pi k around (x,y,z)
  {
    ints( e, "ab", a, 3, 2 );
    ints( e, "ax", a, 6, 3 );
    double const an = 2 * std::atan2( num( a[4] ), num( a[3] ) ) + 2 * PI * num( a[5] );
    vec const ax = vec3< T >( a, 6 );
    put< T >( e, a[2], op == "raa" ? rot( T( an ), ax ) : rot( vec( T( an ) * ( ax / ax.norm() ) ) ), own );
  }
  else if( op == "rypr" ) // d ya yb pa pb ra rb
  {
    ints( e, "y", a, 3, 2 );
    ints( e, "p", a, 5, 2 );
    ints( e, "rl", a, 7, 2 );
    T const y = T( 2 * std::atan2( num( a[4] ), num( a[3] ) ) ), p = T( 2 * std::atan2( num( a[6] ), num( a[5] ) ) ), r = T( 2 * std::atan2( num( a[8] ), num( a[7] ) ) );
    rot const x( y, p, r );
    T yy, pp, rr;
    x.get_yaw_pitch_roll( yy, pp, rr );
    Eigen::Matrix< double, 6, 1 > sc;
    sc << std::sin( double( yy ) ), std::cos( double( yy ) ), std::sin( double( pp ) ), std::cos( double( pp ) ), std::sin( double( rr ) ), std::cos( double( rr ) );
    e.raw( "ypr", rats( sc, own ) );
    put< T >( e, a[2], x, own );
  }
  else if( op == "rinv" ) { e.s( "a", a[3] ); put< T >( e, a[2], R.at( a[3] ).first.inverse(), R.at( a[3] ).second ); }
  else if( op == "rmul" ) { e.s( "a", a[3] ).s( "b", a[4] ); auto x = R.at( a[3] ), y = R.at( a[4] ); put< T >( e, a[2], x.first * y.first, worse( x.second, y.second ) ); }
  else if( op == "rcopy" ) { e.s( "g", a[3] ); auto x = R.at( a[3] ); rot y( x.first ); rot z; z = y; put< T >( e, a[2], z, x.second ); }
  else if( op == "req" ) { e.s( "a", a[2] ).s( "b", a[3] ); auto &x = R.at( a[2] ).first, &y = R.at( a[3] ).first; e.t( "eq", x == y ).t( "ne", x != y ); }
  else if( op == "rvec" ) // a, vector
  {
    e.s( "a", a[2] );
    ints( e, "in", a, 3, 3 );
    e.raw( "out", rats( vec( R.at( a[2] ).first * vec3< T >( a, 3 ) ), R.at( a[2] ).second ) );
  }
  else if( op == "rstream" )
  {
    e.s( "g", a[3] );
    std::stringstream st;
    st << R.at( a[3] ).first;
    rot x;
    st >> x;
    e.t( "good", !st.fail() );
    put< T >( e, a[2], x, COARSE );
  }
  else if( op == "rinterp" ) // a c n: from a to a*c^n
  {
    e.s( "a", a[2] ).s( "c", a[3] ).i( "n", atoi( a[4].c_str() ) );
    auto const A = R.at( a[2] ), C = R.at( a[3] );
    rot B = A.first;
    int const n = atoi( a[4].c_str() );
    for( int i = 0; i < n; ++i ) { B = B * C.first; }
    std::vector< rot > v;
    v.push_back( C.first ); // is to stay
    interpolated_rotations( A.first, B, size_t( n - 1 ), v );
    std::string o = "[", o2 = "[";
    cls const c = worse( A.second, C.second );
    for( auto const& x : v ) { o += ( o.size() > 1 ? "," : "" ) + rats( mat( x ), c ); }
    for( int i = 1; i < n; ++i ) { o2 += ( o2.size() > 1 ? "," : "" ) + rats( mat( interpolate_rotation( A.first, B, T( i ) / T( n ) ) ), c ); }
    e.raw( "all", o + "]" ).raw( "one", o2 + "]" );
  }
  // --- similarities
  else if( op == "sid" ) { put< T >( e, a[2], sim(), own ); }
  else if( op == "snew" ) // d rot scale t
  {
    e.s( "a", a[3] );
    give( e, "sc", a, 4, 1 );
    give( e, "tt", a, 5, 3 );
    put< T >( e, a[2], sim( T( num( a[4] ) ), R.at( a[3] ).first, vec3< T >( a, 5 ) ), worse( own, R.at( a[3] ).second ) );
  }
  else if( op == "smat" ) // d scale n m11..m33 t
  {
    give( e, "sc", a, 3, 1 );
    e.i( "n", atoi( a[4].c_str() ) );
    ints( e, "mm", a, 5, 9 );
    give( e, "tt", a, 14, 3 );
    Eigen::Matrix< T, 4, 4 > m = Eigen::Matrix< T, 4, 4 >::Identity();
    m.template block< 3, 3 >( 0, 0 ) = mat3< T >( a, 5 ) * T( num( a[3] ) / num( a[4] ) );
    m.template block< 3, 1 >( 0, 3 ) = vec3< T >( a, 14 );
    put< T >( e, a[2], sim( m ), own );
  }
  else if( op == "sinv" ) { e.s( "a", a[3] ); put< T >( e, a[2], S.at( a[3] ).first.inverse(), S.at( a[3] ).second ); }
  else if( op == "smul" ) { e.s( "a", a[3] ).s( "b", a[4] ); auto x = S.at( a[3] ), y = S.at( a[4] ); put< T >( e, a[2], x.first * y.first, worse( x.second, y.second ) ); }
  else if( op == "sround" ) { e.s( "g", a[3] ); auto x = S.at( a[3] ); put< T >( e, a[2], sim( Eigen::Matrix< T, 4, 4 >( x.first ) ), x.second ); }
  else if( op == "scopy" ) { e.s( "g", a[3] ); auto x = S.at( a[3] ); sim y( x.first ); sim z; z = y; put< T >( e, a[2], z, x.second ); }
  else if( op == "seq" ) { e.s( "a", a[2] ).s( "b", a[3] ); auto &x = S.at( a[2] ).first, &y = S.at( a[3] ).first; e.t( "eq", x == y ).t( "ne", x != y ); }
  else if( op == "svec" )
  {
    e.s( "a", a[2] );
    ints( e, "in", a, 3, 3 );
    e.raw( "out", rats( vec( S.at( a[2] ).first * vec3< T >( a, 3 ) ), S.at( a[2] ).second ) );
  }
  else if( op == "sstream" )
  {
    e.s( "g", a[3] );
    std::stringstream st;
    st << S.at( a[3] ).first;
    sim x;
    st >> x;
    e.t( "good", !st.fail() );
    put< T >( e, a[2], x, COARSE );
  }
  // --- essential matrices
  else if( op == "enew" ) // d rot t
  {
    e.s( "a", a[3] );
    ints( e, "tt", a, 4, 3 );
    put< T >( e, a[2], std::make_shared< essential_matrix_< T > >( R.at( a[3] ).first, vec3< T >( a, 4 ) ), own );
  }
  else if( op == "emat" ) // d scale q t: from the matrix of q and t, times a number
  {
    give( e, "sc", a, 3, 1 );
    ints( e, "q", a, 4, 4 );
    ints( e, "tt", a, 8, 3 );
    double const qw = num( a[4] ), x = num( a[5] ), y = num( a[6] ), z = num( a[7] ), n = qw * qw + x * x + y * y + z * z;
    mat r, tx;
    r << T( n - 2 * ( y * y + z * z ) ), T( 2 * ( x * y - qw * z ) ), T( 2 * ( x * z + qw * y ) ),
      T( 2 * ( x * y + qw * z ) ), T( n - 2 * ( x * x + z * z ) ), T( 2 * ( y * z - qw * x ) ),
      T( 2 * ( x * z - qw * y ) ), T( 2 * ( y * z + qw * x ) ), T( n - 2 * ( x * x + y * y ) );
    vec const t = vec3< T >( a, 8 );
    tx << 0, -t.z(), t.y(), t.z(), 0, -t.x(), -t.y(), t.x(), 0;
    put< T >( e, a[2], std::make_shared< essential_matrix_< T > >( mat( T( num( a[3] ) ) * ( tx * r ) ) ), own );
  }
  else if( op == "ecopy" ) { e.s( "g", a[3] ); put< T >( e, a[2], std::make_shared< essential_matrix_< T > >( *E.at( a[3] ) ), own ); }
  else if( op == "eclone" ) { e.s( "g", a[3] ); put< T >( e, a[2], std::dynamic_pointer_cast< essential_matrix_< T > >( E.at( a[3] )->clone() ), own ); }
  else if( op == "eof" ) // from the object of the other type
  {
    e.s( "g", a[3] );
    essential_matrix const& b = WD.E.count( a[3] ) ? static_cast< essential_matrix const& >( *WD.E.at( a[3] ) ) : *WF.E.at( a[3] );
    put< T >( e, a[2], std::make_shared< essential_matrix_< T > >( b ), WD.E.count( a[3] ) ? own : COARSE );
  }
  // --- fundamental matrices: U diag V^T from two rotations
  else if( op == "fnew" ) // d q1 q2 s1 s2 s3
  {
    ints( e, "q", a, 3, 4 );
    ints( e, "q2", a, 7, 4 );
    ints( e, "sv", a, 11, 3 );
    auto rm = [&]( size_t i ) {
      double const qw = num( a[i] ), x = num( a[i + 1] ), y = num( a[i + 2] ), z = num( a[i + 3] ), n = qw * qw + x * x + y * y + z * z;
      matrix_3x3d r;
      r << n - 2 * ( y * y + z * z ), 2 * ( x * y - qw * z ), 2 * ( x * z + qw * y ),
        2 * ( x * y + qw * z ), n - 2 * ( x * x + z * z ), 2 * ( y * z - qw * x ),
        2 * ( x * z - qw * y ), 2 * ( y * z + qw * x ), n - 2 * ( x * x + y * y );
      return matrix_3x3d( r / n );
    };
    matrix_3x3d const m = rm( 3 ) * vec3< double >( a, 11 ).asDiagonal() * rm( 7 ).transpose();
    put< T >( e, a[2], std::make_shared< fundamental_matrix_< T > >( mat( m.cast< T >() ) ), own );
  }
  else if( op == "fcopy" ) { e.s( "g", a[3] ); put< T >( e, a[2], std::make_shared< fundamental_matrix_< T > >( *W< T >().F.at( a[3] ) ), own ); }
  else if( op == "fclone" ) { e.s( "g", a[3] ); put< T >( e, a[2], std::dynamic_pointer_cast< fundamental_matrix_< T > >( W< T >().F.at( a[3] )->clone() ), own ); }
  else if( op == "fof" )
  {
    e.s( "g", a[3] );
    fundamental_matrix const& b = WD.F.count( a[3] ) ? static_cast< fundamental_matrix const& >( *WD.F.at( a[3] ) ) : *WF.F.at( a[3] );
    put< T >( e, a[2], std::make_shared< fundamental_matrix_< T > >( b ), WD.F.count( a[3] ) ? own : COARSE );
  }
  else { return false; }
  return true;
}

// ---------------------------------------------------------------- very small angles, and those near to half a turn
// numbers that are to be whole, up to a thousandth
template< class V > static std::string whole( V const& v, double by )
{
  std::string o = "[";
  for( int i = 0; i < v.rows(); ++i )
  {
    for( int j = 0; j < v.cols(); ++j )
    {
      double const x = double( v( i, j ) ) * by, r = floor( x + 0.5 );
      o += ( o.size() > 1 ? "," : "" ) + ( fabs( x - r ) < 1e-3 && fabs( r ) < 2e9 ? std::to_string( (long long) r ) : "2147483647" );
    }
  }
  return o + "]";
}
static rotation_d made( args_t const& a, double n ) // how w x y z: of the rotation of the quaternion, with its squared length
{
  double const w = num( a[3] );
  vector_3d const v = vec3< double >( a, 4 );
  double const an = 2 * std::atan2( v.norm(), w );
  if( a[2] == "aa" ) { return rotation_d( an, v ); }
  if( a[2] == "rod" ) { return rotation_d( vector_3d( v / v.norm() * an ) ); }
  if( a[2] == "m" )
  {
    double const x = v.x(), y = v.y(), z = v.z();
    matrix_3x3d r;
    r << 1 - 2 * ( y * y + z * z ) / n, 2 * ( x * y - w * z ) / n, 2 * ( x * z + w * y ) / n,
      2 * ( x * y + w * z ) / n, 1 - 2 * ( x * x + z * z ) / n, 2 * ( y * z - w * x ) / n,
      2 * ( x * z - w * y ) / n, 2 * ( y * z + w * x ) / n, 1 - 2 * ( x * x + y * y ) / n;
    return rotation_d( r );
  }
  Eigen::Quaterniond q( w, v.x(), v.y(), v.z() );
  q.normalize();
  return rotation_d( q );
}

// ---------------------------------------------------------------- intrinsics and cameras
// one that takes what the base class offers
struct plain_intrinsics : public camera_intrinsics
{
  double f, a, s;
  vector_2d pp;
  camera_intrinsics_sptr clone() const { return std::make_shared< plain_intrinsics >( *this ); }
  double focal_length() const { return f; }
  vector_2d principal_point() const { return pp; }
  double aspect_ratio() const { return a; }
  double skew() const { return s; }
};
static std::map< std::string, camera_intrinsics_sptr > K;
struct cam
{
  std::shared_ptr< simple_camera > c;
  cls k;
  bool look;
};
static std::map< std::string, cam > C;

static std::string rats( std::vector< double > const& v, cls c )
{
  std::string o = "[";
  for( double d : v ) { o += ( o.size() > 1 ? "," : "" ) + rat( d, c ); }
  return o + "]";
}
static void say( ev& e, camera_intrinsics const& k, cls c )
{
  e.raw( "k", rats( k.as_matrix(), c ) ).raw( "f", rat( k.focal_length(), c ) ).raw( "pp", rats( k.principal_point(), c ) );
  e.raw( "ar", rat( k.aspect_ratio(), c ) ).raw( "sk", rat( k.skew(), c ) ).raw( "dc", rats( k.dist_coeffs(), c ) );
}
static void put( ev& e, std::string const& d, camera_intrinsics_sptr k, cls c )
{
  K[d] = k;
  e.s( "h", d );
  say( e, *k, c );
}
static void say( ev& e, cam const& x )
{
  camera const& b = *x.c;
  cls const c = x.k;
  e.raw( "c", rats( b.center(), c ) ).raw( "gc", rats( x.c->get_center(), c ) );
  matrix_3x3d const r( b.rotation() ), gr( x.c->get_rotation() );
  e.t( "look", x.look );
  e.raw( "r", x.look ? squares( r, c ) : rats( r, c ) ).raw( "gr", x.look ? squares( gr, c ) : rats( gr, c ) );
  e.raw( "tr", x.look ? squares( b.translation(), c ) : rats( b.translation(), c ) );
  if( !x.look ) { e.raw( "p", rats( b.as_matrix(), c ) ); }
  else { e.raw( "p", "[]" ); }
  covariance_3d const co = b.center_covar();
  matrix_3x3d cv;
  for( int i = 0; i < 9; ++i ) { cv( i / 3, i % 3 ) = co( i / 3, i % 3 ); }
  e.raw( "cv", rats( cv, c ) );
  say( e, *b.intrinsics(), c );
}
static void put( ev& e, std::string const& d, std::shared_ptr< simple_camera > c, cls k, bool look )
{
  cam x = { c, k, look };
  C[d] = x;
  e.s( "h", d );
  say( e, x );
}
static Eigen::VectorXd coeffs( args_t const& a, size_t i )
{
  Eigen::VectorXd d( a.size() - i );
  for( size_t j = i; j < a.size(); ++j ) { d[j - i] = num( a[j] ); }
  return d;
}
static vector_2d vec2( args_t const& a, size_t i ) { return vector_2d( num( a[i] ), num( a[i + 1] ) ); }
static simple_camera_intrinsics& simple( std::string const& k ) { return dynamic_cast< simple_camera_intrinsics& >( *K.at( k ) ); }

int main( int argc, char** argv )
{
  hc::runner R;
  R.on_reset = [&] { WD = world< double >(); WF = world< float >(); K.clear(); C.clear(); };
  for( char const* op : { "rq", "rid", "rm", "raa", "rrod", "rypr", "rinv", "rmul", "rcopy", "req", "rvec", "rstream", "rinterp", "sid", "snew", "smat", "sinv", "smul",
                          "sround", "scopy", "seq", "svec", "sstream", "enew", "emat", "ecopy", "eclone", "eof", "fnew", "fcopy", "fclone", "fof" } )
  {
    R.ops[op] = []( args_t const& a, ev& e ) { if( !( a[1] == "d" ? typed< double >( a, e ) : typed< float >( a, e ) ) ) { exit( 5 ); } };
  }
  R.ops["rbig"] = []( args_t const& a, ev& e ) { // n how w x y z
    ints( e, "q", a, 3, 4 );
    double const n = num( a[1] );
    e.i( "n", atoll( a[1].c_str() ) ).s( "how", a[2] );
    rotation_d const r = made( a, n );
    matrix_3x3d const m( r );
    Eigen::Matrix< double, 1, 1 > c, rc;
    double const an = r.angle(), len = r.rodrigues().norm();
    c << std::cos( an );
    rc << std::cos( len );
    e.raw( "m", whole( m, n ) ).raw( "sin", whole( vector_3d( r.axis() * std::sin( an ) ), n ) ).raw( "cos", whole( c, n ) );
    e.raw( "rsin", whole( vector_3d( r.rodrigues() * ( len == 0 ? 1 : std::sin( len ) / len ) ), n ) ).raw( "rcos", whole( rc, n ) );
    e.t( "range", an > -PI - 1e-9 && an <= PI + 1e-9 && len <= PI + 1e-9 );
    e.raw( "again", whole( matrix_3x3d( rotation_d( an, r.axis() ) ), n ) ).raw( "ragain", whole( matrix_3x3d( rotation_d( r.rodrigues() ) ), n ) );
    e.raw( "magain", whole( matrix_3x3d( rotation_d( m ) ), n ) ).raw( "inv", whole( matrix_3x3d( r.inverse() ), n ) );
    e.raw( "id", whole( matrix_3x3d( r * r.inverse() ), n ) );
    vector_3d const v( 1, -2, 0 );
    e.raw( "v", whole( vector_3d( r * v ), n ) );
    double yy, pp, rr;
    r.get_yaw_pitch_roll( yy, pp, rr );
    e.raw( "ypr", std::fabs( std::cos( pp ) ) < 1e-3 ? "[]" : whole( matrix_3x3d( rotation_d( yy, pp, rr ) ), n ) );
    // half of the way there, twice
    rotation_d const half = interpolate_rotation( rotation_d(), r, 0.5 );
    e.raw( "half", whole( matrix_3x3d( half * half ), n ) ); };
  R.ops["rtiny"] = []( args_t const& a, ev& e ) { // n how n x y z: the angle is 2/n times the length of the axis
    ints( e, "ax", a, 4, 3 );
    double const n = num( a[1] );
    vector_3d const v = vec3< double >( a, 4 );
    e.s( "how", a[2] );
    rotation_d const r = made( a, n * n );
    matrix_3x3d const I = matrix_3x3d::Identity();
    auto d = [&]( rotation_d const& x ) { return whole( matrix_3x3d( matrix_3x3d( x ) - I ), n / 2 ); };
    e.raw( "m", d( r ) ).raw( "rod", whole( r.rodrigues(), n / 2 ) ).raw( "aa", whole( vector_3d( r.axis() * r.angle() ), n / 2 ) );
    e.raw( "again", d( rotation_d( r.angle(), r.axis() ) ) ).raw( "ragain", d( rotation_d( r.rodrigues() ) ) ).raw( "inv", d( r.inverse() ) ).raw( "two", d( r * r ) );
    e.raw( "half", d( interpolate_rotation( rotation_d(), r * r, 0.5 ) ) );
    e.raw( "v", whole( vector_3d( r * vector_3d( 1, -2, 0 ) - vector_3d( 1, -2, 0 ) ), n / 2 ) ); };
  R.ops["rcast"] = []( args_t const& a, ev& e ) {
    if( a[1] == "d" ) { WD.R.count( a[3] ) ? cast_rot< double, double >( a, e ) : cast_rot< double, float >( a, e ); }
    else { WD.R.count( a[3] ) ? cast_rot< float, double >( a, e ) : cast_rot< float, float >( a, e ); }
  };
  R.ops["scast"] = []( args_t const& a, ev& e ) {
    if( a[1] == "d" ) { WD.S.count( a[3] ) ? cast_sim< double, double >( a, e ) : cast_sim< double, float >( a, e ); }
    else { WD.S.count( a[3] ) ? cast_sim< float, double >( a, e ) : cast_sim< float, float >( a, e ); }
  };
  // --- intrinsics
  R.ops["kdef"] = []( args_t const& a, ev& e ) { put( e, a[1], std::make_shared< simple_camera_intrinsics >(), FINE ); };
  R.ops["knew"] = []( args_t const& a, ev& e ) { // d kind f px py a s dist...
    e.s( "kind", a[2] );
    give( e, "in", a, 3, 5 );
    give( e, "din", a, 8, a.size() - 8 );
    if( a[2] == "plain" )
    {
      auto k = std::make_shared< plain_intrinsics >();
      k->f = num( a[3] );
      k->pp = vec2( a, 4 );
      k->a = num( a[6] );
      k->s = num( a[7] );
      put( e, a[1], k, FINE );
    }
    else if( a[2] == "set" )
    {
      auto k = std::make_shared< simple_camera_intrinsics >();
      k->set_skew( num( a[7] ) );
      k->set_focal_length( num( a[3] ) );
      k->set_aspect_ratio( num( a[6] ) );
      k->set_principal_point( vec2( a, 4 ) );
      k->set_dist_coeffs( coeffs( a, 8 ) );
      put( e, a[1], k, FINE );
    }
    else if( a[2] == "mat" )
    {
      matrix_3x3d m;
      m << num( a[3] ), num( a[7] ), num( a[4] ), 9, num( a[3] ) / num( a[6] ), num( a[5] ), 8, 7, 1;
      put( e, a[1], std::make_shared< simple_camera_intrinsics >( m, coeffs( a, 8 ) ), FINE );
    }
    else { put( e, a[1], std::make_shared< simple_camera_intrinsics >( num( a[3] ), vec2( a, 4 ), num( a[6] ), num( a[7] ), coeffs( a, 8 ) ), FINE ); }
  };
  R.ops["kset"] = []( args_t const& a, ev& e ) { // k what values
    e.s( "what", a[2] );
    give( e, "in", a, 3, a.size() - 3 );
    simple_camera_intrinsics& k = simple( a[1] );
    if( a[2] == "f" ) { k.set_focal_length( num( a[3] ) ); }
    if( a[2] == "ar" ) { k.set_aspect_ratio( num( a[3] ) ); }
    if( a[2] == "sk" ) { k.set_skew( num( a[3] ) ); }
    if( a[2] == "pp" ) { k.set_principal_point( vec2( a, 3 ) ); }
    if( a[2] == "dc" ) { k.set_dist_coeffs( coeffs( a, 3 ) ); }
    e.s( "h", a[1] );
    say( e, k, FINE );
  };
  R.ops["kcopy"] = []( args_t const& a, ev& e ) { e.s( "g", a[3] ).s( "how", a[2] ); // d how src
    camera_intrinsics_sptr s = K.at( a[3] );
    put( e, a[1], a[2] == "clone" ? s->clone() : std::make_shared< simple_camera_intrinsics >( static_cast< camera_intrinsics const& >( *s ) ), FINE ); };
  R.ops["kstream"] = []( args_t const& a, ev& e ) { e.s( "g", a[2] );
    std::stringstream st;
    st << *K.at( a[2] );
    auto k = std::make_shared< simple_camera_intrinsics >();
    st >> *k;
    e.t( "good", !st.fail() );
    put( e, a[1], k, MID ); };
  R.ops["kshow"] = []( args_t const& a, ev& e ) { e.s( "h", a[1] ); say( e, *K.at( a[1] ), FINE ); };
  R.ops["kmap"] = []( args_t const& a, ev& e ) { e.s( "a", a[1] ); give( e, "in", a, 2, 2 ); e.raw( "out", rats( K.at( a[1] )->map( vec2( a, 2 ) ), FINE ) ); };
  R.ops["kmap3"] = []( args_t const& a, ev& e ) { e.s( "a", a[1] ); give( e, "in", a, 2, 3 ); e.raw( "out", rats( K.at( a[1] )->map( vec3< double >( a, 2 ) ), FINE ) ); };
  R.ops["kunmap"] = []( args_t const& a, ev& e ) { e.s( "a", a[1] ); give( e, "in", a, 2, 2 ); e.raw( "out", rats( K.at( a[1] )->unmap( vec2( a, 2 ) ), FINE ) ); };
  R.ops["kdist"] = []( args_t const& a, ev& e ) { e.s( "a", a[1] ); give( e, "in", a, 2, 2 ); e.raw( "out", rats( K.at( a[1] )->distort( vec2( a, 2 ) ), FINE ) ); };
  R.ops["kround"] = []( args_t const& a, ev& e ) { e.s( "a", a[1] ); give( e, "in", a, 2, 2 );
    camera_intrinsics const& k = *K.at( a[1] );
    vector_2d const p = vec2( a, 2 );
    e.raw( "und", rats( k.undistort( k.distort( p ) ), MID ) ).raw( "unm", rats( k.unmap( k.map( p ) ), MID ) ); };
  // --- cameras
  R.ops["cdef"] = []( args_t const& a, ev& e ) { put( e, a[1], std::make_shared< simple_camera >(), FINE, false ); };
  R.ops["cnew"] = []( args_t const& a, ev& e ) { // d how rot k c
    e.s( "how", a[2] ).s( "a", a[3] ).s( "b", a[4] );
    ints( e, "cc", a, 5, 3 );
    vector_3d const c = vec3< double >( a, 5 );
    rotation_d const r = WD.R.at( a[3] ).first;
    put( e, a[1], a[2] == "ref" ? std::make_shared< simple_camera >( c, r, *K.at( a[4] ) )
         : a[2] == "null" ? std::make_shared< simple_camera >( c, r, camera_intrinsics_sptr() )
         : a[2] == "none" ? std::make_shared< simple_camera >( c, r ) : std::make_shared< simple_camera >( c, r, K.at( a[4] ) ), WD.R.at( a[3] ).second, false );
  };
  R.ops["ccopy"] = []( args_t const& a, ev& e ) { e.s( "how", a[2] ).s( "g", a[3] );
    cam const x = C.at( a[3] );
    std::shared_ptr< simple_camera > n;
    if( a[2] == "clone" ) { n = std::dynamic_pointer_cast< simple_camera >( x.c->clone() ); }
    else if( a[2] == "base" ) { n = std::make_shared< simple_camera >( static_cast< camera const& >( *x.c ) ); }
    else { n = std::make_shared< simple_camera >(); *n = *x.c; }
    put( e, a[1], n, x.k, x.look ); };
  R.ops["cset"] = []( args_t const& a, ev& e ) { // c what values
    e.s( "what", a[2] ).s( "h", a[1] );
    cam& x = C.at( a[1] );
    if( a[2] == "c" ) { ints( e, "in", a, 3, 3 ); x.c->set_center( vec3< double >( a, 3 ) ); }
    if( a[2] == "t" ) { ints( e, "in", a, 3, 3 ); x.c->set_translation( vec3< double >( a, 3 ) ); }
    if( a[2] == "r" ) { e.s( "a", a[3] ); x.c->set_rotation( WD.R.at( a[3] ).first ); x.look = false; x.k = WD.R.at( a[3] ).second; }
    if( a[2] == "k" ) { e.s( "a", a[3] ); x.c->set_intrinsics( a[3] == "" ? camera_intrinsics_sptr() : K.at( a[3] ) ); }
    if( a[2] == "cv" ) { ints( e, "in", a, 3, 6 ); matrix_3x3d m; m << num( a[3] ), num( a[4] ), num( a[5] ), num( a[4] ), num( a[6] ), num( a[7] ), num( a[5] ), num( a[7] ), num( a[8] ); x.c->set_center_covar( covariance_3d( m ) ); }
    say( e, x ); };
  R.ops["clook"] = []( args_t const& a, ev& e ) { // c up? d u: looks at the center and d
    e.s( "h", a[1] ).s( "how", a[2] );
    ints( e, "d", a, 3, 3 );
    ints( e, "u", a, 6, 3 );
    cam& x = C.at( a[1] );
    vector_3d const at = x.c->center() + vec3< double >( a, 3 );
    if( a[2] == "def" ) { x.c->look_at( at ); }
    else { x.c->look_at( at, vec3< double >( a, 6 ) ); }
    x.look = true;
    double const dp = x.c->depth( at );
    e.raw( "atp", rats( x.c->project( at ), x.k ) ).raw( "atd", rat( dp * fabs( dp ), x.k ) );
    say( e, x ); };
  R.ops["cshow"] = []( args_t const& a, ev& e ) { e.s( "h", a[1] ); say( e, C.at( a[1] ) ); };
  R.ops["cproj"] = []( args_t const& a, ev& e ) { e.s( "a", a[1] ); give( e, "in", a, 2, 3 );
    cam const& x = C.at( a[1] );
    camera const& b = *x.c;
    e.raw( "out", rats( b.project( vec3< double >( a, 2 ) ), x.k ) ).raw( "dep", rat( b.depth( vec3< double >( a, 2 ) ), x.k ) ); };
  R.ops["cback"] = []( args_t const& a, ev& e ) { e.s( "a", a[1] ); give( e, "in", a, 2, 3 ); // project, unmap, and put it back where it was
    cam const& x = C.at( a[1] );
    camera const& b = *x.c;
    vector_3d const p = vec3< double >( a, 2 );
    vector_2d const n = b.intrinsics()->unmap( b.project( p ) );
    double const z = b.depth( p );
    vector_3d const q = b.center() + b.rotation().inverse() * vector_3d( n.x() * z, n.y() * z, z );
    e.raw( "out", rats( q, worse( MID, x.k ) ) ); };
  R.ops["cstream"] = []( args_t const& a, ev& e ) { e.s( "g", a[2] );
    std::stringstream st;
    st << static_cast< camera const& >( *C.at( a[2] ).c );
    auto n = std::make_shared< simple_camera >();
    st >> *n;
    e.t( "good", !st.fail() );
    put( e, a[1], n, MID, C.at( a[2] ).look ); };
  return R.main( argc, argv );
}
