// Histories of operations on simplicial complexes, sorting, and simplices.
#include "common.hh"

#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/filtrations/LowerStar.hh>
#include <aleph/topology/filtrations/UpperStar.hh>

#include <functional>
#include <memory>

using namespace aleph::topology;
using namespace vh;

template <class S> S simplexFrom( const J& s, const J& w, double scale )
{
  auto vs = s.as<typename S::VertexType>();
  return S( vs.begin(), vs.end(), enc<typename S::DataType>( w.i, scale ) );
}

template <class S> J item( const S& s, double scale )
{
  J x = J::obj();
  x.set( "s", vertices( s ) );
  x.set( "w", dec( s.data(), scale ) );
  return x;
}

template <class S> std::vector<S> itemsFrom( const J& items, double scale )
{
  std::vector<S> r;
  for( auto&& x : items.a )
    r.push_back( simplexFrom<S>( x["s"], x["w"], scale ) );
  return r;
}

template <class S> std::vector<typename S::DataType> values( const J& f, double scale )
{
  std::vector<typename S::DataType> r;
  for( auto&& x : f.a )
    r.push_back( enc<typename S::DataType>( x.i, scale ) );
  return r;
}

template <class S> void sortBy( SimplicialComplex<S>& K, const std::string& by, const J& f, double scale )
{
  if( by == "data" )         K.sort( filtrations::Data<S>() );
  else if( by == "greater" ) K.sort( filtrations::Data<S, std::greater<typename S::DataType> >() );
  else if( by == "lex" )     K.sort();
  else
  {
    auto v = values<S>( f, scale );
    if( by == "lower" ) K.sort( filtrations::LowerStar<S>( v.begin(), v.end() ) );
    else                K.sort( filtrations::UpperStar<S>( v.begin(), v.end() ) );
  }
}

template <class S> J history( const J& c )
{
  using K_t = SimplicialComplex<S>;
  double scale = double( c["scale"].i );

  K_t K, copy;
  J out = J::arr();

  for( auto&& op : c["ops"].a )
  {
    J r = J::obj();
    std::string o = op["op"].s;
    bool ret = true;

    if( o == "push" ) K.push_back( simplexFrom<S>( op["s"], op["w"], scale ) );
    else if( o == "assign" )
    {
      auto v = itemsFrom<S>( op["items"], scale );
      K = K_t( v.begin(), v.end() );
    }
    else if( o == "insert" )
    {
      auto v = itemsFrom<S>( op["items"], scale );
      K.insert( v.begin(), v.end() );
    }
    else if( o == "clear" ) K.clear();
    else if( o == "replace" )
    {
      if( static_cast<std::size_t>( op["k"].i ) <= K.size() )
        ret = K.replace( K.begin() + ( op["k"].i - 1 ), simplexFrom<S>( op["s"], op["w"], scale ) );
    }
    else if( o == "remove" )  K.remove( simplexFrom<S>( op["s"], J( 0 ), scale ) );
    else if( o == "remove1" ) K.remove_without_validation( simplexFrom<S>( op["s"], J( 0 ), scale ) );
    else if( o == "faces" )   K.createMissingFaces();
    else if( o == "weigh" )   K.recalculateWeights( op["max"].b, op["keep"].b );
    else if( o == "values" )
    {
      auto v = values<S>( op["f"], scale );
      K.recalculateWeights( v.begin(), v.end() );
    }
    else if( o == "shuffle" )
    {
      std::vector< std::reference_wrapper<const S> > order;
      for( auto&& p : op["p"].a )
        order.push_back( std::cref( K[ static_cast<std::size_t>( p.i - 1 ) ] ) );
      K.rearrange( order.begin() );
    }
    else if( o == "sort" ) sortBy( K, op["by"].s, op["f"], scale );
    else if( o == "copy" ) copy = K;

    r.set( "ret", J( ret ) );
    J items = J::arr(), bracket = J::arr(), at = J::arr(), lex = J::arr(), bydim = J::arr();
    for( auto&& s : K )
      items.push( item( s, scale ) );
    for( std::size_t k = 0; k < K.size(); k++ )
    {
      bracket.push( item( K[k], scale ) );
      at.push( item( K.at( k ), scale ) );
    }
    for( auto it = K.begin_lexicographical(); it != K.end_lexicographical(); ++it )
      lex.push( item( *it, scale ) );
    for( auto it = K.begin_dimension(); it != K.end_dimension(); ++it )
      bydim.push( item( *it, scale ) );

    bool atEnd = false;
    try { K.at( K.size() ); } catch( std::out_of_range& ) { atEnd = true; }

    long long dim = -1;
    try { dim = static_cast<long long>( K.dimension() ); } catch( std::runtime_error& ) { dim = -1; }

    J range = J::arr();
    for( std::size_t d = 0; d < 5; d++ )
    {
      J q = J::arr();
      auto p = K.range( d );
      for( auto it = p.first; it != p.second; ++it )
        q.push( item( *it, scale ) );
      range.push( q );
    }
    J range12 = J::arr();
    {
      auto p = K.range( [] ( std::size_t d ) { return d >= 1; }, [] ( std::size_t d ) { return d <= 2; } );
      for( auto it = p.first; it != p.second; ++it )
        range12.push( item( *it, scale ) );
    }

    std::vector<typename S::VertexType> vs;
    K.vertices( std::back_inserter( vs ) );
    J jv = J::arr();
    for( auto&& v : vs )
      jv.push( J( static_cast<long long>( v ) ) );

    J probes = J::arr();
    for( auto&& p : c["probes"].a )
    {
      S s = simplexFrom<S>( p, J( 7 ), scale );
      J x = J::obj();
      x.set( "s", p );
      x.set( "has", J( K.contains( s ) ) );
      auto it = K.find( s );
      x.set( "found", J( it != K.end() ) );
      x.set( "w", it != K.end() ? dec( it->data(), scale ) : J( 0 ) );
      long long index = -1;
      try { index = static_cast<long long>( K.index( s ) ); } catch( std::runtime_error& ) { index = -1; }
      x.set( "index", J( index ) );
      probes.push( x );
    }

    r.set( "items", items ).set( "bracket", bracket ).set( "at", at ).set( "lex", lex ).set( "bydim", bydim );
    r.set( "atEnd", J( atEnd ) ).set( "dim", J( dim ) ).set( "range", range ).set( "range12", range12 );
    r.set( "vertices", jv ).set( "probes", probes );
    r.set( "size", J( K.size() ) ).set( "empty", J( K.empty() ) );
    r.set( "eq", J( K == copy ) ).set( "ne", J( K != copy ) );
    out.push( r );
  }
  return out;
}

template <class S> J sorting( const J& c )
{
  double scale = double( c["scale"].i );
  auto v = itemsFrom<S>( c["items"], scale );
  SimplicialComplex<S> K( v.begin(), v.end() );
  std::vector<S> w;
  for( auto&& p : c["p"].a )
    w.push_back( v.at( static_cast<std::size_t>( p.i - 1 ) ) );
  SimplicialComplex<S> L( w.begin(), w.end() );

  sortBy( K, c["by"].s, c["f"], scale );
  sortBy( L, c["by"].s, c["f"], scale );

  J r = J::obj();
  r.set( "items", complexTo( K, scale ) );
  r.set( "again", complexTo( L, scale ) );
  return r;
}

// A family of simplices given by vertex lists; everything a simplex shows.
template <class S> J simplices( const J& c )
{
  using V = typename S::VertexType;
  double scale = double( c["scale"].i );
  std::vector<S> S_;
  for( std::size_t k = 0; k < c["lists"].size(); k++ )
  {
    auto&& l = c["lists"][k];
    auto vs  = l.as<V>();
    auto w   = enc<typename S::DataType>( c["W"][k].i, scale );
    if( vs.empty() )
      S_.push_back( S() );
    else if( vs.size() == 1 )
      S_.push_back( S( vs.front(), w ) );
    else
      S_.push_back( S( vs.begin(), vs.end(), w ) );
  }

  J out = J::obj();
  J each = J::arr();
  for( auto&& s : S_ )
  {
    J x = J::obj();
    x.set( "v", vertices( s ) );
    J rev = J::arr();
    for( auto it = s.rbegin(); it != s.rend(); ++it )
      rev.push( J( static_cast<long long>( *it ) ) );
    x.set( "rev", rev );
    x.set( "w", dec( s.data(), scale ) );
    x.set( "size", J( s.size() ) ).set( "empty", J( s.empty() ) ).set( "bool", J( bool( s ) ) );
    long long dim = -1;
    try { dim = static_cast<long long>( s.dimension() ); } catch( std::runtime_error& ) { dim = -1; }
    x.set( "dim", J( dim ) );
    J pos = J::arr();
    for( std::size_t k = 0; k < s.size(); k++ )
      pos.push( J( static_cast<long long>( s[ static_cast<V>( k ) ] ) ) );
    x.set( "pos", pos );
    bool refused = false;
    try { s[ static_cast<V>( s.size() ) ]; } catch( std::out_of_range& ) { refused = true; }
    x.set( "refused", J( refused ) );
    J bd = J::arr();
    for( auto it = s.begin_boundary(); it != s.end_boundary(); ++it )
      bd.push( vertices( *it ) );
    x.set( "boundary", bd );
    J has = J::arr();
    for( auto&& p : c["probe"].a )
      has.push( J( s.contains( static_cast<V>( p.i ) ) ) );
    x.set( "has", has );
    S t( s, enc<typename S::DataType>( 99, scale ) );
    S u( s );
    u.setData( enc<typename S::DataType>( 98, scale ) );
    J re = J::arr();
    re.push( dec( t.data(), scale ) ); re.push( dec( u.data(), scale ) );
    re.push( J( t == s && u == s && !( t != s ) && !( t < s ) && !( s < t ) ) );
    re.push( J( std::hash<S>()( t ) == std::hash<S>()( s ) && hash_value( u ) == hash_value( s ) ) );
    x.set( "reweighted", re );
    x.set( "copy", vertices( t ) );
    each.push( x );
  }
  out.set( "each", each );

  J rel = J::arr();
  for( auto&& s : S_ )
  {
    J row = J::arr();
    for( auto&& t : S_ )
    {
      J x = J::arr();
      x.push( J( s == t ) ); x.push( J( s != t ) ); x.push( J( s < t ) );
      x.push( J( std::hash<S>()( s ) == std::hash<S>()( t ) && hash_value( s ) == hash_value( t ) ) );
      row.push( x );
    }
    rel.push( row );
  }
  out.set( "rel", rel );
  return out;
}

template <class S> J handleAs( const J& c )
{
  std::string k = c["k"].s;
  if( k == "history" ) return history<S>( c );
  if( k == "sort" )    return sorting<S>( c );
  return simplices<S>( c );
}

J handle( const J& c )
{
  std::string t = c["t"].s;
  if( t == "du" ) return handleAs< Simplex<double, unsigned> >( c );
  if( t == "fs" ) return handleAs< Simplex<float, unsigned short> >( c );
  return handleAs< Simplex<double, int> >( c );
}

int main( int argc, char** argv )
{
  return run( argc, argv, handle );
}
