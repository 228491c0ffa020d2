// Step functions, persistence indicator functions and piecewise linear
// functions.
#include "common.hh"

#include <aleph/math/PiecewiseLinearFunction.hh>
#include <aleph/math/StepFunction.hh>

#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh>

#include <array>
#include <cmath>
#include <set>

using namespace aleph;
using namespace aleph::math;
using namespace vh;

const double S = 64;

// Rounds to the nearest multiple
J nearest( double x, double scale )
{
  if( std::isnan( x ) || std::isinf( x ) || std::fabs( x * scale ) > 1.9e9 )
    return J( BAD );
  return J( static_cast<long long>( std::llround( x * scale ) ) );
}

// Scale of function values
double height( const J& c )
{
  auto h = c.has( "height" ) ? c["height"].i : 0;
  return h == 0 ? 1.0 : h == 1 ? std::ldexp( 1.0, -34 ) : std::ldexp( 1.0, 24 );
}

template <class T> J steps( const J& c )
{
  using F = StepFunction<T>;
  const int cells = int( c["cells"].i );
  const double Y  = height( c );
  const double X  = unit<T>().factor;
  std::array<F, 3> R;
  auto ref = [&] ( const J& op, const char* k ) -> F& { return R.at( std::size_t( op[k].i - 1 ) ); };
  auto val = [&] ( const J& x ) { return static_cast<T>( double( x.i ) / S * Y ); };

  J out = J::arr();
  for( auto&& op : c["ops"].a )
  {
    auto o = op["op"].s;
    auto v = op["v"].i;          // variant of the operator
    auto& f = ref( op, "r" );

    if( o == "build" )
    {
      F g;
      for( auto&& p : op["pieces"].a )
        g.add( enc<T>( p["a"].i ), enc<T>( p["b"].i ), val( p["y"] ) );
      f = g;
    }
    else if( o == "pif" )
    {
      PersistenceDiagram<T> D;
      for( auto&& p : op["D"].a )
      {
        if( p[1].i == PLUS_INF )
          D.add( enc<T>( p[0].i ) );
        else
          D.add( enc<T>( p[0].i ), enc<T>( p[1].i ) );
      }
      f = persistenceIndicatorFunction( D );
    }
    else if( o == "add" || o == "sub" )
    {
      auto g = ref( op, "s" );
      auto h = ref( op, "u" );
      if( v == 0 )
        f = o == "add" ? g + h : g - h;
      else
      {
        if( o == "add" ) g += h; else g -= h;
        f = g;
      }
    }
    else if( o == "shift" )
      f = v == 0 ? ref( op, "s" ) + val( op["l"] ) : ref( op, "s" ) - ( -val( op["l"] ) );
    else if( o == "neg" )
      f = -F( ref( op, "s" ) );
    else if( o == "mul" )
    {
      auto g = ref( op, "s" );
      T l = static_cast<T>( op["l"].i );
      if( v == 0 ) f = g * l; else if( v == 1 ) f = l * g; else f = ( g *= l );
    }
    else if( o == "div" )
    {
      auto g = ref( op, "s" );
      T l = static_cast<T>( op["l"].i );
      if( v == 0 ) f = g / l; else f = ( g /= l );
    }
    else if( o == "abs" ) { auto g = ref( op, "s" ); f = g.abs(); }
    else if( o == "pow" ) { auto g = ref( op, "s" ); f = g.pow( static_cast<T>( op["p"].i ) ); }
    else if( o == "copy" ) { auto g = ref( op, "s" ); f = g; }
    else if( o == "normalize" )
    {
      auto g = ref( op, "s" );
      f = v == 0 && op["a"].i == 0 && op["b"].i == 1 ? normalize( g ) : normalize( g, static_cast<T>( op["a"].i ), static_cast<T>( op["b"].i ) );
    }

    J r = J::obj(), vals = J::arr(), ends = J::arr(), points = J::arr(), domain = J::arr(), image = J::arr();
    for( auto&& g : R )
    {
      J x = J::arr();
      for( int k = 1; k <= cells; k++ )
        x.push( num( double( g( enc<T>( 2*k - 1 ) ) ), S / Y ) );
      vals.push( x );
    }
    std::set<long long> near;
    for( int k = 0; k <= cells; k++ )
    {
      T x = enc<T>( 2*k );
      points.push( num( double( f( x ) ), S / Y ) );
      // Sums may differ from their value in the cell for a few units in
      // the last place around an end point.
      T l = x, u = x;
      for( int i = 0; i < 12; i++ )
      {
        near.insert( num( double( f( l ) ), S / Y ).i );
        near.insert( num( double( f( u ) ), S / Y ).i );
        l = std::nextafter( l, std::numeric_limits<T>::lowest() );
        u = std::nextafter( u, std::numeric_limits<T>::max() );
      }
    }
    for( auto&& y : near )
      ends.push( J( y ) );
    std::vector<T> ds, is;
    f.domain( std::back_inserter( ds ) );
    f.image( std::back_inserter( is ) );
    for( auto&& x : ds ) domain.push( nearest( double( x ), 1 / X ) );
    for( auto&& y : is ) image.push( num( double( y ), S / Y ) );

    // Pieces are functions on their own
    J halves = J::arr(), doubled = J::arr();
    for( auto&& p : f.indicatorFunctions() )
    {
      halves.push( num( double( ( p / T( 2 ) )( p.a() ) ), 2*S / Y ) );
      doubled.push( num( double( ( p * T( 2 ) )( p.b() ) ), S/2 / Y ) );
    }
    r.set( "halves", halves ).set( "doubled", doubled );

    r.set( "vals", vals ).set( "ends", ends ).set( "points", points ).set( "domain", domain ).set( "image", image );
    r.set( "max", num( double( f.max() ), S / Y ) ).set( "sup", num( double( f.sup() ), S / Y ) );
    r.set( "integral", nearest( double( f.integral() ), S / ( X * Y ) ) ).set( "absolute", nearest( double( f.integral_p( T( 1 ) ) ), S / ( X * Y ) ) );
    auto q = double( f.integral_p( T( 2 ) ) );
    r.set( "square", nearest( q*q, 1 / ( X * X * Y * Y ) ) );
    out.push( r );
  }
  return out;
}

template <class T> J linear( const J& c )
{
  using F = PiecewiseLinearFunction<T>;
  const int points = int( c["points"].i );
  const double Y  = height( c );
  const double X   = unit<T>().factor;
  std::array<F, 3> R;
  auto ref = [&] ( const J& op, const char* k ) -> F& { return R.at( std::size_t( op[k].i - 1 ) ); };
  auto val = [&] ( const J& x ) { return static_cast<T>( double( x.i ) / S * Y ); };

  J out = J::arr();
  for( auto&& op : c["ops"].a )
  {
    auto o = op["op"].s;
    auto v = op["v"].i;
    auto& f = ref( op, "r" );
    J error( "" );

    if( o == "build" )
    {
      std::vector< std::pair<T,T> > nodes;
      for( auto&& p : op["nodes"].a )
        nodes.push_back( std::make_pair( enc<T>( p[0].i ), static_cast<T>( double( p[1].i ) * Y ) ) );
      try { f = F( nodes.begin(), nodes.end() ); }
      catch( std::runtime_error& ) { error = J( "runtime_error" ); }
    }
    else if( o == "add" || o == "sub" )
    {
      auto g = ref( op, "s" );
      auto h = ref( op, "u" );
      if( v == 0 )
        f = o == "add" ? g + h : g - h;
      else
      {
        if( o == "add" ) g += h; else g -= h;
        f = g;
      }
    }
    else if( o == "shift" )
    {
      auto g = ref( op, "s" );
      auto l = val( op["l"] );
      if( v == 0 ) f = g + l; else if( v == 1 ) f = g - ( -l ); else if( v == 2 ) f = ( g += l ); else f = ( g -= -l );
    }
    else if( o == "neg" ) { auto g = ref( op, "s" ); f = -g; }
    else if( o == "mul" )
    {
      auto g = ref( op, "s" );
      T l = static_cast<T>( op["l"].i );
      if( v == 0 ) f = g * l; else if( v == 1 ) f = l * g; else f = ( g *= l );
    }
    else if( o == "div" )
    {
      auto g = ref( op, "s" );
      T l = static_cast<T>( op["l"].i );
      if( v == 0 ) f = g / l; else if( v == 1 ) f = l / g; else f = ( g /= l );
    }
    else if( o == "abs" ) { auto g = ref( op, "s" ); f = g.abs(); }
    else if( o == "copy" ) { auto g = ref( op, "s" ); f = g; }

    J r = J::obj(), vals = J::arr(), domain = J::arr(), integrals = J::arr(), eq = J::arr(), ne = J::arr();
    for( auto&& g : R )
    {
      J x = J::arr(), e = J::arr(), n = J::arr();
      for( int k = 0; k <= points; k++ )
        x.push( num( double( g( enc<T>( k ) ) ), S / Y ) );
      for( auto&& h : R )
      {
        e.push( J( bool( g == h ) ) );
        n.push( J( bool( g != h ) ) );
      }
      vals.push( x );
      eq.push( e );
      ne.push( n );
    }
    std::vector<T> ds;
    f.domain( std::back_inserter( ds ) );
    if( !ds.empty() )
      domain.push( dec( ds.front() ) ).push( dec( ds.back() ) );
    for( int p = 1; p <= 3; p++ )
      integrals.push( nearest( std::pow( double( p == 1 && v == 0 ? f.integral() : f.integral( T( p ) ) ), p ), 16 * S / ( X * std::pow( Y, p ) ) ) );
    r.set( "vals", vals ).set( "domain", domain ).set( "integral", integrals ).set( "error", error ).set( "eq", eq ).set( "ne", ne );
    r.set( "max", num( double( f.max() ), S / Y ) ).set( "sup", num( double( f.sup() ), S / Y ) );
    out.push( r );
  }
  return out;
}

J handle( const J& c )
{
  bool d = c["t"].s == "d";
  if( c["k"].s == "steps" )
    return d ? steps<double>( c ) : steps<float>( c );
  return linear<double>( c );
}

int main( int argc, char** argv )
{
  return run( argc, argv, handle );
}
