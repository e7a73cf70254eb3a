#include "common/gen.h"
#include "common/xml.h"

namespace gen
{
    int randomInt( pbt::Tape& t, bool wild )
    {
        switch( t.below( wild ? 6 : 4 ) )
        {
        case 0: return t.range( 0, 4 );
        case 1: return t.around( -8, 24, 0 );
        case 2: return t.range( 0, 1000 );
        case 3: return t.pick<int>( { -1, 1, 16, 96, 127, 128, 129, 16384, 99, 999 } );
        case 4: return (int)( t.bits64() % 2000001 ) - 1000000;
        default: return t.pick<int>( { INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1 << 30, 65536, -65536 } );
        }
    }
    long double randomDecimal( pbt::Tape& t, bool wild )
    {
        switch( t.below( wild ? 6 : 4 ) )
        {
        case 0: return t.range( 0, 10 );
        case 1: return t.around( -2000, 2000, 0 ) / 8.0L;
        case 2: return t.around( -1000000, 1000000, 0 ) / 1000.0L;
        case 3: return t.around( -180, 180, 0 );
        case 4: return ( (long double)( t.bits64() % 2000000001ull ) - 1e9L ) * t.pick<double>( { 1, 1e3, 1e-3, 1e6 } );
        default: return t.pick<long double>( { 1e30L, -1e30L, 1e-30L, std::nanl( "" ), INFINITY, -INFINITY, 1e18L } );
        }
    }
    std::string randomText( pbt::Tape& t, bool simple ) { return xml::genText( t, simple ); }
}
