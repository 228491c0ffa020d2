// Histories of boundary matrix operations in all representations.
#include "common.hh"

#include <aleph/topology/BoundaryMatrix.hh>

#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>

#include <memory>

using namespace aleph::topology;
using namespace vh;

struct Base
{
  virtual ~Base() {}
  virtual void apply( const J& op ) = 0;
  virtual J observe() const = 0;
};

template <class R> struct Machine : Base
{
  using Matrix = BoundaryMatrix<R>;
  using Index  = typename Matrix::Index;

  Matrix M;
  Matrix copy;

  void apply( const J& op ) override
  {
    std::string o = op["op"].s;
    auto idx = [&op] ( const char* k ) { return static_cast<Index>( op[k].i ); };

    if( o == "resize" )     M.setNumColumns( idx( "n" ) );
    else if( o == "set" )   { auto c = op["c"].as<Index>(); M.setColumn( idx( "j" ), c.begin(), c.end() ); }
    else if( o == "add" )   M.addColumns( idx( "s" ), idx( "t" ) );
    else if( o == "clear" ) M.clearColumn( idx( "j" ) );
    else if( o == "dim" )   M.setDimension( idx( "j" ), idx( "d" ) );
    else if( o == "dual" )  M = M.dualize();
    else if( o == "copy" )  copy = M;
    else if( o == "load" )
    {
      std::istringstream in( op["text"].s );
      M = Matrix::load( in );
    }
    else { std::fprintf( stderr, "unknown op\n" ); std::_Exit( 99 ); }
  }

  J observe() const override
  {
    J r = J::obj();
    auto n = M.getNumColumns();
    r.set( "n", J( static_cast<long long>( n ) ) );
    r.set( "dual", J( M.isDualized() ) );
    r.set( "dim", J( static_cast<long long>( M.getDimension() ) ) );
    r.set( "eq", J( M == copy ) );
    r.set( "ne", J( M != copy ) );
    J cols = J::arr(), dims = J::arr(), lows = J::arr();
    for( Index j = 0; j < n; j++ )
    {
      J c = J::arr();
      for( auto&& i : M.getColumn( j ) )
        c.push( J( static_cast<long long>( i ) ) );
      cols.push( c );
      dims.push( J( static_cast<long long>( M.getDimension( j ) ) ) );
      auto low = M.getMaximumIndex( j );
      lows.push( J( low.second ? static_cast<long long>( low.first ) : -1LL ) );
    }
    r.set( "cols", cols );
    r.set( "dims", dims );
    r.set( "lows", lows );
    return r;
  }
};

J handle( const J& c )
{
  std::vector< std::unique_ptr<Base> > ms;
  ms.emplace_back( new Machine< representations::Vector<unsigned> >() );
  ms.emplace_back( new Machine< representations::Set<unsigned> >() );
  ms.emplace_back( new Machine< representations::List<unsigned> >() );
  ms.emplace_back( new Machine< representations::Vector<unsigned short> >() );

  J out = J::arr();
  for( auto&& op : c["ops"].a )
  {
    J r = J::arr();
    for( auto&& m : ms )
    {
      m->apply( op );
      r.push( m->observe() );
    }
    out.push( r );
  }
  return out;
}

int main( int argc, char** argv )
{
  return run( argc, argv, handle );
}
