// Correlation integrals, dimension estimates, smoothing, principal components,
// algebraic spheres and curvature estimates.
#include "harness.hh"

#include <cmath>
#include <iterator>
#include <random>
#include <stdexcept>
#include <vector>

#include <aleph/containers/PointCloud.hh>

#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/FLANN.hh>
#include <aleph/geometry/TangentSpace.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>

#include <aleph/math/AlgebraicSphere.hh>
#include <aleph/math/PrincipalComponentAnalysis.hh>

#include <aleph/containers/DimensionalityEstimators.hh>
#include <aleph/containers/FractalDimension.hh>
#include <aleph/containers/MeanShift.hh>

using namespace vh;

template <class T> using Cloud = aleph::containers::PointCloud<T>;

template <class T> Cloud<T> cloud( const J& P )
{
  auto d = P.a.empty() ? 1 : P.a[0].a.size();
  Cloud<T> pc( P.a.size(), d );
  for( std::size_t i = 0; i < P.a.size(); i++ )
  {
    std::vector<T> p;
    for( auto&& x : P.a[i].a )
      p.push_back( enc<T>( x.i ) );
    pc.set( i, p.begin(), p.end() );
  }
  return pc;
}

template <class C> J list( const C& c, double scale )
{
  J r = J::arr();
  for( auto&& x : c )
    r.push( near( double( x ), scale ) );
  return r;
}

template <class T, class Wrapper> J neighbours( const J& c )
{
  using namespace aleph::containers;
  using D = aleph::geometry::distances::Manhattan<T>;
  using C = Cloud<T>;

  auto k  = c["k"].s;
  auto pc = cloud<T>( c["P"] );
  auto n  = unsigned( c["n"].i );
  if( k == "simple" )
    return J::obj().set( "v", list( estimateLocalDimensionalityNearestNeighbours<D, C, Wrapper>( pc, n ), 1000 ) );
  if( k == "smooth" )
  {
    std::vector<double> v;
    for( auto&& x : c["v"].a )
      v.push_back( double( x.i ) );
    std::vector<double> one, two;
    meanShiftSmoothing<Wrapper>( pc, v.begin(), v.end(), std::back_inserter( one ), n );
    meanShiftSmoothing<Wrapper>( pc, v.begin(), v.end(), std::back_inserter( two ), n, 2 );
    return J::obj().set( "one", list( one, 1000 ) ).set( "two", list( two, 1000 ) );
  }
  if( k == "gap" || k == "line" )
    return J::obj().set( "v", list( estimateLocalDimensionalityPCA<D, C, Wrapper>( pc, n ), 1 ) );

  auto m = unsigned( c["m"].i );
  try
  {
    auto r = k == "regression" ? estimateLocalDimensionalityNearestNeighbours<D, C, Wrapper>( pc, n, m )
                               : estimateLocalDimensionalityNearestNeighboursMLE<D, C, Wrapper>( pc, n, m );
    return J::obj().set( "error", J( false ) ).set( "v", list( r, 1000 ) );
  }
  catch( std::runtime_error& )
  {
    return J::obj().set( "error", J( true ) );
  }
}

template <class T> J correlation( const J& c )
{
  auto pc        = cloud<T>( c["P"] );
  bool manhattan = c["distance"].s == "manhattan";
  auto s         = manhattan ? aleph::containers::correlationDimensionIntegral< aleph::geometry::distances::Manhattan<T> >( pc )
                             : aleph::containers::correlationDimensionIntegral< aleph::geometry::distances::Euclidean<T> >( pc );
  double u     = unit<T>().factor;
  double pairs = double( pc.size() ) * ( double( pc.size() ) - 1 ) / 2;
  J x = J::arr(), y = J::arr();
  for( auto&& v : s.x )
    x.push( near( manhattan ? v / u : v / u * v / u, 1 ) );
  for( auto&& v : s.y )
    y.push( near( v * pairs, 1 ) );
  return J::obj().set( "x", x ).set( "y", y );
}

J slope( const J& c )
{
  aleph::containers::CorrelationDimensionSequence s;
  for( auto&& v : c["a"].a )
    s.x.push_back( std::pow( 2.0, double( v.i ) ) );
  for( auto&& v : c["b"].a )
    s.y.push_back( std::pow( 2.0, double( v.i ) ) );
  try
  {
    auto v = aleph::containers::correlationDimension( s );
    return J::obj().set( "error", J( false ) ).set( "v", near( v, 1000 ) );
  }
  catch( std::runtime_error& )
  {
    return J::obj().set( "error", J( true ) );
  }
}

template <class T> J components( const J& c )
{
  std::vector< std::vector<T> > data;
  for( auto&& p : c["P"].a )
  {
    data.push_back( std::vector<T>() );
    for( auto&& x : p.a )
      data.back().push_back( T( x.i ) );
  }
  aleph::math::PrincipalComponentAnalysis pca;
  auto r = pca( data );
  J v = J::arr(), s = J::arr();
  for( auto&& x : r.components )
    v.push( list( x, 1000 ) );
  for( auto&& x : r.singularValues )
    s.push( near( double( x ) * double( x ), 1000 ) );
  return J::obj().set( "components", v ).set( "s", s );
}

template <class T> J sphere( const J& c )
{
  std::vector<T> u;
  for( auto&& x : c["u"].a )
    u.push_back( T( x.i ) );
  aleph::math::AlgebraicSphere<T> s( u.begin(), u.end() );
  J out = J::obj();
  // Queries in either order
  if( c["first"].b )
    out.set( "gauss", near( s.gaussianCurvature(), 100000 ) ).set( "mean", near( s.meanCurvature(), 100000 ) );
  out.set( "centre", list( s.centre(), 1000 ) ).set( "radius", near( s.radius() * 2 * std::abs( u.back() ), 1000 ) );
  if( !c["first"].b )
    out.set( "gauss", near( s.gaussianCurvature(), 100000 ) ).set( "mean", near( s.meanCurvature(), 100000 ) );
  return out;
}

J curvature( const J& c )
{
  auto n    = unsigned( c["points"].i );
  auto d    = unsigned( c["d"].i );
  double r  = double( c["r"].i ) / 4;
  auto&& m  = c["c"].a;
  std::mt19937 rng( unsigned( c["seed"].i ) );
  std::normal_distribution<double> normal;
  Cloud<double> pc( n, d );
  for( unsigned i = 0; i < n; i++ )
  {
    std::vector<double> p;
    if( d == 2 )
    {
      double a = 2 * M_PI * ( i + 0.3 * ( rng() % 100 ) / 100.0 ) / n;
      p = { std::cos( a ), std::sin( a ) };
    }
    else
    {
      double l = 0;
      for( unsigned j = 0; j < d; j++ )
      {
        p.push_back( normal( rng ) );
        l += p.back() * p.back();
      }
      for( auto&& x : p )
        x /= std::sqrt( l );
    }
    for( unsigned j = 0; j < d; j++ )
      p[j] = r * p[j] + double( m[j].i );
    pc.set( i, p.begin(), p.end() );
  }
  aleph::geometry::TangentSpace ts;
  return J::obj().set( "v", list( ts( pc, unsigned( c["n"].i ) ), 1000 ) );
}

template <class T> J answer( const J& c )
{
  using D = aleph::geometry::distances::Manhattan<T>;
  auto k  = c["k"].s;
  if( k == "correlation" )
    return correlation<T>( c );
  if( k == "slope" )
    return slope( c );
  if( k == "components" )
    return components<T>( c );
  if( k == "sphere" )
    return sphere<double>( c );
  if( k == "curvature" )
    return curvature( c );
  return c["flann"].b ? neighbours< T, aleph::geometry::FLANN<Cloud<T>, D> >( c )
                      : neighbours< T, aleph::geometry::BruteForce<Cloud<T>, D> >( c );
}

int main( int argc, char** argv )
{
  return vh::run( argc, argv, [] ( const J& c ) { return c["type"].s == "float" ? answer<float>( c ) : answer<double>( c ); } );
}
