// Sample statistics, resampling, and compensated sums.
#include "harness.hh"

#include <cmath>
#include <iterator>
#include <limits>
#include <list>
#include <memory>
#include <stdexcept>
#include <vector>

#include <aleph/math/Bootstrap.hh>
#include <aleph/math/KahanSummation.hh>
#include <aleph/math/Quantiles.hh>
#include <aleph/math/Statistics.hh>

using namespace vh;
using namespace aleph::math;

// Floating point samples are scaled, and moved if single precision suffices
template <class T> double scale( const J& c )
{
  return !std::numeric_limits<T>::is_integer && c.has( "scale" ) ? std::ldexp( 1.0, int( c["scale"].i ) ) : 1.0;
}

template <class T> double shift( const J& c )
{
  return std::numeric_limits<T>::digits > 50 && !std::numeric_limits<T>::is_integer && c.has( "shift" ) ? double( c["shift"].i ) : 0.0;
}

template <class C> C sequence( const J& a, double f = 1.0, double s = 0.0 )
{
  C c;
  for( auto&& v : a.a )
    c.push_back( static_cast<typename C::value_type>( ( double( v.i ) + s ) * f ) );
  return c;
}

bool integral( const std::string& t )
{
  return t == "int" || t == "short" || t == "char" || t == "byte";
}

template <class C> J sample( const J& c )
{
  double f = scale<typename C::value_type>( c );
  double s = shift<typename C::value_type>( c );
  auto x   = sequence<C>( c["x"], f, s );
  J r      = J::obj();
  r.set( "mean", near( sampleMean( x.begin(), x.end() ) / f - ( x.empty() ? 0.0 : s ), 1000.0 ) )
   .set( "variance", near( sampleVariance( x.begin(), x.end() ) / f / f, 1000.0 ) )
   .set( "deviation", near( sampleStandardDeviation( x.begin(), x.end() ) / f, 1000.0 ) )
   .set( "skewness", near( sampleSkewness( x.begin(), x.end() ), 1000.0 ) )
   .set( "kurtosis", near( sampleKurtosis( x.begin(), x.end() ), 1000.0 ) );
  if( !x.empty() )
    r.set( "median", num( double( median( x.begin(), x.end() ) ) / f - s, integral( c["t"].s ) ? 1 : 2 ) );
  return r;
}

template <class A, class B> J covariance( const J& c )
{
  double f = scale<typename A::value_type>( c ), g = scale<typename B::value_type>( c );
  auto x   = sequence<A>( c["x"], f, shift<typename A::value_type>( c ) );
  auto y   = sequence<B>( c["y"], g, shift<typename B::value_type>( c ) );
  try
  {
    return J::obj().set( "covariance", near( sampleCovariance( x.begin(), x.end(), y.begin(), y.end() ) / f / g, 1000.0 ) ).set( "error", J( false ) );
  }
  catch( std::runtime_error& )
  {
    return J::obj().set( "error", J( true ) );
  }
}

// Sum of a sample; keeps a record of the sums of all replicates.
struct Sum
{
  const int* data;
  std::shared_ptr< std::vector<int> > log;

  template <class It> double operator()( It first, It last ) const
  {
    int s = 0;
    for( auto it = first; it != last; ++it )
      s += *it;
    if( first == last || &*first != data )
      log->push_back( s );
    return s;
  }
};

struct Copy
{
  template <class It> std::vector<int> operator()( It first, It last ) const
  {
    return std::vector<int>( first, last );
  }
};

template <class C> J list( const C& c )
{
  J r = J::arr();
  for( auto&& x : c )
    r.push( J( static_cast<long long>( x ) ) );
  return r;
}

J bootstrap( const J& c )
{
  auto k = c["k"].s;
  auto x = sequence< std::vector<int> >( c["x"] );
  auto n = unsigned( c["n"].i );
  Bootstrap b;
  Sum sum = { x.data(), std::make_shared< std::vector<int> >() };
  if( k == "replicates" )
  {
    std::vector< std::vector<int> > R;
    b.makeReplicates( n, x.begin(), x.end(), Copy(), std::back_inserter( R ) );
    J r = J::arr();
    for( auto&& v : R )
      r.push( list( v ) );
    return J::obj().set( "replicates", r );
  }
  if( k == "error" )
  {
    auto e = b.standardError( n, x.begin(), x.end(), sum );
    return J::obj().set( "error", near( e, 1000.0 ) ).set( "log", list( *sum.log ) );
  }
  double alpha = double( c["a"].i ) / 16;
  auto p       = k == "percentile" ? b.percentileConfidenceInterval( n, alpha, x.begin(), x.end(), sum )
               : k == "basic" ? b.basicConfidenceInterval( n, alpha, x.begin(), x.end(), sum )
               : b.studentConfidenceInterval( n, alpha, x.begin(), x.end(), sum );
  double s = k == "student" ? 1000 : 1;
  return J::obj().set( "lower", near( p.first, s ) ).set( "upper", near( p.second, s ) ).set( "log", list( *sum.log ) );
}

J sums( const J& c )
{
  auto x    = sequence< std::vector<float> >( c["x"] );
  auto init = float( c["init"].i );
  return J::obj().set( "sum", near( accumulate_kahan( x.begin(), x.end(), init ), 1 ) )
                 .set( "sorted", near( accumulate_kahan_sorted( x.begin(), x.end(), init ), 1 ) );
}

// A running sum in units of 1/32
J history( const J& c )
{
  KahanSummation<float> s = float( c["init"].i ) / 32;
  J r = J::arr();
  for( auto&& op : c["ops"].a )
  {
    auto o  = op["op"].s;
    float v = float( op["v"].i );
    if( o == "add" )
      s += v / 32;
    else if( o == "sub" )
      s -= v / 32;
    else if( o == "mul" )
      s *= v;
    else if( op["frac"].b )
      s *= 1 / v;               // powers of two
    else
      s /= v;
    r.push( near( double( static_cast<float>( s ) ), 32 ) );
  }
  return r;
}

int main( int argc, char** argv )
{
  return vh::run( argc, argv, [] ( const J& c ) {
    auto k = c["k"].s;
    if( k == "sample" )
      return c["t"].s == "int" ? sample< std::vector<int> >( c )
           : c["t"].s == "short" ? sample< std::vector<short> >( c )
           : c["t"].s == "char" ? sample< std::list<signed char> >( c )
           : c["t"].s == "byte" ? sample< std::vector<unsigned char> >( c )
           : c["t"].s == "float" ? sample< std::vector<float> >( c )
           : c["t"].s == "list" ? sample< std::list<double> >( c ) : sample< std::vector<double> >( c );
    if( k == "covariance" )
      return c["t"].s == "int" ? covariance< std::vector<int>, std::list<double> >( c )
           : c["t"].s == "char" ? covariance< std::vector<signed char>, std::vector<short> >( c )
           : covariance< std::vector<double>, std::vector<double> >( c );
    if( k == "sum" )
      return sums( c );
    if( k == "history" )
      return history( c );
    return bootstrap( c );
  } );
}
