// C04: numeric value types clamp to their range and print what they parse
#include "common/pbt.h"
#include "mx/core/Decimals.h"
#include "mx/core/Integers.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>
#include <functional>
#include <limits>
#include <sstream>

using namespace pbt;
using namespace mx::core;
using BigInt = boost::multiprecision::cpp_int;
using Rat = boost::multiprecision::cpp_rational;

namespace
{
    Rat pow10( int n )
    {
        BigInt r = 1;
        for( int i = 0; i < n; ++i ) r *= 10;
        return Rat( r );
    }
    // exact value of a finite long double
    Rat exact( long double v )
    {
        if( v == 0 ) return Rat( 0 );
        int e = 0;
        const bool neg = v < 0;
        long double m = std::frexp( neg ? -v : v, &e );
        m = std::ldexp( m, 64 );
        e -= 64;
        BigInt i( (uint64_t)m );
        Rat r( i );
        if( e > 0 ) r *= Rat( BigInt( 1 ) << e );
        else r /= Rat( BigInt( 1 ) << -e );
        return neg ? Rat( -r ) : r;
    }
    // exact value of a plain decimal notation; false if it is none.  strict: shortest canonical form
    bool decimalText( const std::string& s, Rat& out, bool strict, int maxDecimals = 1000 )
    {
        size_t i = 0;
        bool neg = false;
        if( i < s.size() && ( s[i] == '-' || ( s[i] == '+' && !strict ) ) ) neg = s[i++] == '-';
        BigInt m = 0;
        size_t ip = 0, fp = 0;
        const size_t istart = i;
        while( i < s.size() && isdigit( (unsigned char)s[i] ) ) { m = m * 10 + ( s[i++] - '0' ); ++ip; }
        bool dot = false;
        if( i < s.size() && s[i] == '.' )
        {
            dot = true;
            ++i;
            while( i < s.size() && isdigit( (unsigned char)s[i] ) ) { m = m * 10 + ( s[i++] - '0' ); ++fp; }
        }
        if( i != s.size() || ip + fp == 0 ) return false;
        out = Rat( m ) / pow10( (int)fp );
        if( strict )
        {
            if( ip == 0 ) return false;
            if( ip > 1 && s[istart] == '0' ) return false;
            if( dot && ( fp == 0 || s.back() == '0' ) ) return false;
            if( neg && m == 0 ) return false;
            if( (int)fp > maxDecimals ) return false;
        }
        if( neg ) out = -out;
        return true;
    }
    Rat absr( const Rat& r ) { return r < 0 ? Rat( -r ) : r; }
    std::string show( long double v )
    {
        char b[80];
        snprintf( b, sizeof b, "%.24Lg", v );
        return b;
    }

    // a decimal number as text with chosen digit counts; sits near round numbers and ties often
    std::string genDecimalText( Tape& t, int maxInt, int maxFrac )
    {
        std::string s;
        switch( t.below( 5 ) )
        {
            case 0: break;
            case 1: case 2: s += "-"; break;
            case 3: s += "+"; break;
            default: break;
        }
        int ni = t.range( 0, maxInt ), nf = t.range( 0, maxFrac );
        if( ni + nf == 0 ) ni = 1;
        const int mode = t.below( 5 );
        for( int i = 0; i < ni; ++i )
        {
            s += mode == 1 ? '9' : mode == 2 ? ( i == 0 ? '1' : '0' ) : (char)( '0' + t.below( 10 ) );
        }
        if( nf > 0 || t.chance( 1, 8 ) )
        {
            s += '.';
            const int fm = t.below( 6 );
            const int at = nf ? t.below( nf ) : 0;
            for( int i = 0; i < nf; ++i )
            {
                char c = (char)( '0' + t.below( 10 ) );
                if( fm == 1 ) c = '9';
                if( fm == 2 ) c = i == at ? '5' : i > at ? '0' : c;          // ties
                if( fm == 3 ) c = i < at ? '0' : c;                           // leading zeros
                if( fm == 4 ) c = i > at ? '0' : c;                           // trailing zeros
                if( fm == 5 ) c = i == at ? '4' : i > at ? '9' : c;           // just below a tie
                s += c;
            }
        }
        return s;
    }
    std::string pad( Tape& t, const std::string& s )
    {
        if( !t.chance( 1, 6 ) ) return s;
        const std::vector<std::string> ws{ " ", "\t", "\n", "  " };
        return t.pick( ws ) + s + ( t.coin() ? t.pick( ws ) : std::string() );
    }
    std::string genGarbage( Tape& t )
    {
        static const std::vector<std::string> fixed{ "", " ", "-", "+", ".", "-.", "abc", "1.2.3", "1,5", "--1", "+-1", "1 2", "1-", "one", "0x10", "1_000", "NaN", "nan", "INF", "inf", "infinity", "1.5x", "x1", "\xC3\xA9", "1/2", "#3", "normal", "yes", "1e", "e5", "5%", "\xEF\xBC\x91" };
        if( t.chance( 2, 3 ) ) return t.pick( fixed );
        std::string s = genDecimalText( t, 4, 4 );
        s.insert( t.below( (uint32_t)s.size() + 1 ), 1, t.pick( { 'a', 'x', '-', ',', '/', '_', '%' } ) );
        Rat r;
        // putting a minus in front of a plain number gives a number again
        std::string stripped = s;
        if( decimalText( stripped, r, false ) ) return "zz";
        return s;
    }

    // ---- integers --------------------------------------------------------------------------------
    struct IntKind
    {
        const char* name;
        int min, max;
        std::function<void( Tape&, Ctx&, const IntKind& )> run;
    };

    std::string intText( Tape& t, long long& value, bool& fits, const IntKind& k )
    {
        std::string digits;
        switch( t.below( 6 ) )
        {
            case 0: value = t.around( -20, 200, 1 ); break;
            case 1: value = (long long)k.min + t.range( -2, 2 ); break;
            case 2: value = (long long)k.max + t.range( -2, 2 ); break;
            case 3: value = (int)t.bits64(); break;
            case 4: value = t.range( -70000, 70000 ); break;
            default: value = (long long)t.bits64() / ( t.coin() ? 1 : 4096 ); break;
        }
        fits = value >= std::numeric_limits<int>::min() && value <= std::numeric_limits<int>::max();
        std::string s = std::to_string( value < 0 ? -(unsigned long long)value : (unsigned long long)value );
        if( t.chance( 1, 4 ) ) s = std::string( t.range( 1, 4 ), '0' ) + s;
        if( value < 0 ) s = "-" + s;
        else if( t.chance( 1, 5 ) ) s = "+" + s;
        return pad( t, s );
    }
    int clampInt( const IntKind& k, long long v ) { return v < k.min ? k.min : v > k.max ? k.max : (int)v; }

    template <class T> void checkPrint( Ctx& c, const IntKind& k, const T& x, const std::string& how )
    {
        const int v = x.getValue();
        if( v < k.min || v > k.max ) c.fail( std::string( "int-out-of-range:" ) + k.name, how + " left " + std::to_string( v ) + " in " + k.name );
        const std::string p = toString( x );
        if( p != std::to_string( v ) ) c.fail( std::string( "int-print:" ) + k.name, how + ": printed \"" + p + "\" for " + std::to_string( v ) );
        std::ostringstream a, b;
        toStream( a, x );
        b << x;
        if( a.str() != p || b.str() != p ) c.fail( std::string( "int-print-paths:" ) + k.name, "toString, toStream and << differ: " + p + " " + a.str() + " " + b.str() );
        T y;
        if( !y.parse( p ) || y.getValue() != v ) c.fail( std::string( "int-reparse:" ) + k.name, "parsing the printed " + p + " gave " + std::to_string( y.getValue() ) );
    }
    template <class T> void runInt( Tape& t, Ctx& c, const IntKind& k )
    {
        T x;
        std::string log = std::string( k.name ) + ":";
        checkPrint( c, k, x, "default construction" );
        int cur = x.getValue();
        const int n = t.range( 1, 12 );
        for( int i = 0; i < n && !c.failed(); ++i )
        {
            long long v = 0;
            bool fits = true;
            switch( t.below( 5 ) )
            {
                case 0:
                {
                    do intText( t, v, fits, k ); while( !fits && !t.exhausted() && t.coin() );
                    if( !fits ) v = 0;
                    log += " construct " + std::to_string( v );
                    x = T( (int)v );
                    cur = clampInt( k, v );
                    break;
                }
                case 1:
                {
                    intText( t, v, fits, k );
                    if( !fits ) v = v < 0 ? std::numeric_limits<int>::min() : std::numeric_limits<int>::max();
                    log += " set " + std::to_string( v );
                    if( t.coin() ) x.setValue( (int)v );
                    else { Integer& base = x; base.setValue( (int)v ); }
                    cur = clampInt( k, v );
                    break;
                }
                case 2: case 3:
                {
                    const std::string s = intText( t, v, fits, k );
                    log += " parse \"" + s + "\"";
                    const bool ok = x.parse( s );
                    if( fits && !ok ) c.fail( std::string( "int-parse-rejects:" ) + k.name, "\"" + s + "\" was not parsed" );
                    if( fits ) cur = clampInt( k, v );
                    else
                    {
                        // beyond the native range: either reported as not parsed and unchanged, or the nearest permitted value
                        if( ok ) cur = clampInt( k, v );
                    }
                    break;
                }
                default:
                {
                    std::string s = genGarbage( t );
                    log += " parse \"" + s + "\"";
                    if( x.parse( s ) ) c.fail( std::string( "int-parse-accepts:" ) + k.name, "\"" + s + "\" was reported as parsed" );
                }
            }
            if( x.getValue() != cur )
                c.fail( std::string( "int-value:" ) + k.name, log + ": value " + std::to_string( x.getValue() ) + ", expected " + std::to_string( cur ) );
            checkPrint( c, k, x, log );
            if( t.chance( 1, 3 ) )
            {
                T y( x ), z;
                z = x;
                T w( std::move( y ) );
                if( w.getValue() != cur || z.getValue() != cur ) c.fail( std::string( "int-copy:" ) + k.name, "a copy holds a different value" );
                z.setValue( k.max );
                if( x.getValue() != cur ) c.fail( std::string( "int-alias:" ) + k.name, "changing a copy changed the original" );
                x = w;
            }
            c.nontrivial( std::string( k.name ) + ( v < k.min ? "<" : v > k.max ? ">" : "=" ) + std::to_string( cur ) );
        }
        c.input( log );
    }

    const std::vector<IntKind>& intKinds()
    {
        constexpr int lo = std::numeric_limits<int>::min(), hi = std::numeric_limits<int>::max();
        static const std::vector<IntKind> k{
            { "AccordionMiddleValue", 0, 3, runInt<AccordionMiddleValue> }, { "BeamLevel", 1, 8, runInt<BeamLevel> }, { "Byte", 0, 255, runInt<Byte> },
            { "FifthsValue", lo, hi, runInt<FifthsValue> }, { "Midi128", 1, 128, runInt<Midi128> }, { "Midi16", 1, 16, runInt<Midi16> },
            { "Midi16384", 1, 16384, runInt<Midi16384> }, { "NonNegativeInteger", 0, hi, runInt<NonNegativeInteger> }, { "NumberLevel", 1, 6, runInt<NumberLevel> },
            { "NumberOfLines", 0, 3, runInt<NumberOfLines> }, { "OctaveValue", 0, 9, runInt<OctaveValue> }, { "PositiveInteger", 1, hi, runInt<PositiveInteger> },
            { "StaffLine", lo, hi, runInt<StaffLine> }, { "StaffNumber", 1, hi, runInt<StaffNumber> }, { "StringNumber", 1, hi, runInt<StringNumber> },
            { "TremoloMarks", 0, 8, runInt<TremoloMarks> }, { "Integer", lo, hi, runInt<Integer> } };
        return k;
    }
    void integers( Tape& t, Ctx& c )
    {
        const auto& k = intKinds()[c.caseIndex % intKinds().size()];
        k.run( t, c, k );
        c.tag( k.name );
    }

    // ---- decimals --------------------------------------------------------------------------------
    // what a stored and printed decimal must look like for input v with d decimals and limit max
    // returns "" or what is wrong
    std::string judgeDecimal( const std::string& printed, long double v, int d, const Rat& lo, bool hasLo, const Rat& hi, bool hasHi, const Rat& expressMax )
    {
        Rat p;
        if( !decimalText( printed, p, true, d ) ) return "the printed form \"" + printed + "\" is not a shortest plain decimal with at most " + std::to_string( d ) + " decimals";
        Rat want = exact( v );
        if( want > expressMax ) want = expressMax;
        if( want < -expressMax ) want = -expressMax;
        if( hasLo && want < lo ) want = lo;
        if( hasHi && want > hi ) want = hi;
        const Rat unit = Rat( 1 ) / pow10( d );
        // half a unit, the documented tie window, and the resolution of the arithmetic
        Rat tol = unit / 2 + unit * Rat( 2, 10000000 ) + absr( want ) * Rat( BigInt( 1 ), BigInt( 1 ) << 62 ) + unit * Rat( BigInt( 1 ), BigInt( 1 ) << 40 );
        if( absr( p - want ) > tol ) return "the printed form \"" + printed + "\" is not the nearest to " + show( v );
        if( absr( p ) > expressMax ) return "the printed form \"" + printed + "\" exceeds the largest expressible number";
        if( hasLo && p < lo ) return "the printed form \"" + printed + "\" is below the range";
        if( hasHi && p > hi ) return "the printed form \"" + printed + "\" is above the range";
        return {};
    }

    // a number: usually exactly a decimal text, sometimes extreme
    long double genNumber( Tape& t, std::string& log, int maxInt, int maxFrac )
    {
        if( t.chance( 1, 12 ) )
        {
            const long double big = t.pick( { 1e18L, 9.3e18L, 1.8446744073709551615e19L, 1.8446744073709551616e19L, 1e20L, 1e30L, 1e300L, 9.999999999999999999e18L, 1e19L, 1e4000L, 1e-30L, 1e-4000L } );
            const long double v = t.coin() ? -big : big;
            log += show( v );
            return v;
        }
        const std::string s = genDecimalText( t, maxInt, maxFrac );
        log += s;
        return strtold( s.c_str(), nullptr );
    }

    void checkValue( Ctx& c, const std::string& name, long double got, const std::string& printed, const std::string& log )
    {
        Rat p;
        if( !decimalText( printed, p, false ) ) return;
        if( absr( exact( got ) - p ) > absr( p ) * Rat( BigInt( 1 ), BigInt( 1 ) << 61 ) + Rat( BigInt( 1 ), BigInt( 1 ) << 70 ) )
            c.fail( "dec-value-vs-print:" + name, log + ": getValue " + show( got ) + " but printed " + printed );
    }

    void precise( Tape& t, Ctx& c )
    {
        const int mi = t.around( -1, 21, 10 ), md = t.around( -1, 20, 6 );
        const int ei = mi < 1 ? 1 : mi > 19 ? 19 : mi, ed = md < 1 ? 1 : md > 19 ? 19 : md;
        // the arithmetic is long double: keep to digit counts it can carry
        const int ti = std::min( ei, 18 );
        const int tf = ed;
        std::string log = "PreciseDecimal(" + std::to_string( mi ) + "," + std::to_string( md ) + ",";
        long double v = genNumber( t, log, ti + 2, std::min( tf + 3, 12 ) );
        log += ")";
        c.input( log );
        PreciseDecimal x( (short)mi, (short)md, v );
        if( x.getMaxIntegerDigits() != ei || x.getMaxDecimalDigits() != ed ) c.fail( "precise-digits", log + ": digits " + std::to_string( x.getMaxIntegerDigits() ) + "," + std::to_string( x.getMaxDecimalDigits() ) );
        const Rat maxE = pow10( ei ) - Rat( 1 ) / pow10( ed );
        const int rounds = t.range( 1, 4 );
        for( int i = 0; i < rounds && !c.failed(); ++i )
        {
            if( i > 0 )
            {
                log += " set ";
                v = genNumber( t, log, ti + 2, std::min( tf + 3, 12 ) );
                x.setValue( v );
            }
            // decimals the long double can not resolve are not judged digit by digit
            const int room = 18 - (int)std::max( 0.0L, std::ceil( std::log10( std::fabs( v ) + 1 ) ) );
            if( room >= ed || v == 0 )
            {
                const std::string why = judgeDecimal( x.toString(), v, ed, 0, false, 0, false, maxE );
                if( !why.empty() ) c.fail( "precise-print", log + ": " + why );
            }
            Rat p;
            if( !decimalText( x.toString(), p, true, ed ) ) c.fail( "precise-print-form", log + ": \"" + x.toString() + "\" is not a shortest plain decimal" );
            checkValue( c, "PreciseDecimal", x.getValue(), x.toString(), log );
            std::ostringstream os;
            x.toStream( os );
            if( os.str() != x.toString() ) c.fail( "precise-stream", "toStream and toString differ" );
            if( absr( p ) > maxE ) c.fail( "precise-limit", log + ": \"" + x.toString() + "\" has more digits than allowed" );
            if( room >= ed )
            {
                PreciseDecimal y( (short)mi, (short)md, x.getValue() );
                if( y.toString() != x.toString() ) c.fail( "precise-idempotent", log + ": storing the stored value again gave " + y.toString() );
            }
            c.nontrivial( std::to_string( ei ) + "/" + std::to_string( ed ) + "/" + x.toString() );
        }
        c.inputText.clear();
        c.input( log );
    }
    PBT_PROPERTY( { "C04", "precise-decimal", "a random decimal (near ties, near limits, extreme) stored with random digit limits; distinct = different (limits, printed value)", precise, 60000, 3000000 } );

    struct DecKind
    {
        const char* name;
        bool hasLo, hasHi;
        int lo, hi;      // in units
        bool loExclusive;
        std::function<void( Tape&, Ctx&, const DecKind& )> run;
    };
    template <class T> T makeDec( long double v ) { return T( v ); }

    template <class T> void runDec( Tape& t, Ctx& c, const DecKind& k )
    {
        const Rat lo = k.loExclusive ? Rat( k.lo ) + Rat( 1 ) / pow10( 6 ) : Rat( k.lo ), hi = Rat( k.hi );
        const Rat maxE = pow10( 19 ) - Rat( 1 ) / pow10( 6 );
        T x;
        std::string log = std::string( k.name ) + ": default";
        {
            Rat p;
            if( !decimalText( x.toString(), p, true, 6 ) || ( k.hasLo && p < lo ) || ( k.hasHi && p > hi ) )
                c.fail( std::string( "dec-default:" ) + k.name, std::string( k.name ) + " starts as " + x.toString() );
        }
        const int n = t.range( 1, 10 );
        long double v = 0;
        for( int i = 0; i < n && !c.failed(); ++i )
        {
            const std::string before = x.toString();
            bool judged = true;
            switch( t.below( 5 ) )
            {
                case 0:
                    log += " construct ";
                    v = genNumber( t, log, 13, 9 );
                    x = makeDec<T>( v );
                    break;
                case 1:
                    log += " set ";
                    if( t.chance( 1, 3 ) ) { v = (long double)( t.coin() ? k.lo : k.hi ) + t.around( -3, 3, 0 ) * t.pick( { 1.0L, 0.1L, 0.000001L, 0.0000004L, 0.00000051L } ); log += show( v ); }
                    else v = genNumber( t, log, 13, 9 );
                    if( t.coin() ) x.setValue( v );
                    else { Decimal& b = x; b.setValue( v ); }
                    break;
                case 2: case 3:
                {
                    std::string s = genDecimalText( t, 13, 9 );
                    v = strtold( s.c_str(), nullptr );
                    s = pad( t, s );
                    log += " parse \"" + s + "\"";
                    if( !x.parse( s ) ) { c.fail( std::string( "dec-parse-rejects:" ) + k.name, "\"" + s + "\" was not parsed" ); judged = false; }
                    break;
                }
                default:
                {
                    const std::string s = genGarbage( t );
                    log += " parse \"" + s + "\"";
                    if( x.parse( s ) ) c.fail( std::string( "dec-parse-accepts:" ) + k.name, "\"" + s + "\" was reported as parsed" );
                    if( x.toString() != before ) c.fail( std::string( "dec-parse-changes:" ) + k.name, "a failed parse changed the value from " + before + " to " + x.toString() );
                    judged = false;
                }
            }
            const std::string p = x.toString();
            if( judged )
            {
                const std::string why = judgeDecimal( p, v, 6, lo, k.hasLo, hi, k.hasHi, maxE );
                if( !why.empty() ) c.fail( std::string( "dec-value:" ) + k.name, log + ": " + why );
            }
            checkValue( c, k.name, x.getValue(), p, log );
            if( toString( (const Decimal&)x ) != p ) c.fail( std::string( "dec-print-paths:" ) + k.name, "free toString differs from the member" );
            std::ostringstream a, b;
            x.toStream( a );
            b << x;
            if( a.str() != p || b.str() != p ) c.fail( std::string( "dec-print-paths:" ) + k.name, "streams differ from toString" );
            // printing and parsing gives an equal value (below 10^13 every digit is carried)
            if( p.size() < 20 )
            {
                T y;
                if( !y.parse( p ) || y.toString() != p ) c.fail( std::string( "dec-reparse:" ) + k.name, "parsing the printed \"" + p + "\" gave \"" + y.toString() + "\"" );
                if( y.getValue() != x.getValue() ) c.fail( std::string( "dec-reparse-value:" ) + k.name, "values differ after printing and parsing " + p );
            }
            if( t.chance( 1, 3 ) )
            {
                T y( x ), z;
                z = x;
                T w( std::move( y ) );
                if( w.toString() != p || z.toString() != p ) c.fail( std::string( "dec-copy:" ) + k.name, "a copy holds a different value" );
                z.setValue( -7 );
                if( x.toString() != p ) c.fail( std::string( "dec-alias:" ) + k.name, "changing a copy changed the original" );
                // a copy keeps its own range
                Rat q;
                if( !decimalText( z.toString(), q, true, 6 ) || ( k.hasLo && q < lo ) ) c.fail( std::string( "dec-copy-range:" ) + k.name, "a copy does not keep the range: " + z.toString() );
                x = std::move( w );
            }
            c.nontrivial( std::string( k.name ) + "=" + x.toString() );
        }
        c.input( log );
    }
    const std::vector<DecKind>& decKinds()
    {
        static const std::vector<DecKind> k{
            { "DivisionsValue", false, false, 0, 0, false, runDec<DivisionsValue> }, { "MillimetersValue", false, false, 0, 0, false, runDec<MillimetersValue> },
            { "NonNegativeDecimal", true, false, 0, 0, false, runDec<NonNegativeDecimal> }, { "Percent", true, true, 0, 100, false, runDec<Percent> },
            { "PositiveDecimal", true, false, 0, 0, true, runDec<PositiveDecimal> }, { "PositiveDivisions", true, false, 0, 0, true, runDec<PositiveDivisions> },
            { "PositiveDivisionsValue", true, false, 0, 0, true, runDec<PositiveDivisionsValue> }, { "RotationDegrees", true, true, -180, 180, false, runDec<RotationDegrees> },
            { "Semitones", false, false, 0, 0, false, runDec<Semitones> }, { "TenthsValue", false, false, 0, 0, false, runDec<TenthsValue> },
            { "TrillBeats", true, false, 2, 0, false, runDec<TrillBeats> }, { "Decimal", false, false, 0, 0, false, runDec<Decimal> } };
        return k;
    }
    void decimals( Tape& t, Ctx& c )
    {
        const auto& k = decKinds()[c.caseIndex % decKinds().size()];
        k.run( t, c, k );
        c.tag( k.name );
    }

    PBT_PROPERTY( { "C04", "integers", "a random history of constructions, assignments, parses of valid and invalid text and copies on one bounded integer type; distinct = different (type, side of the range, resulting value)", integers, 40000, 2000000 } );
    PBT_PROPERTY( { "C04", "decimals", "a random history of constructions, assignments, parses and copies on one bounded decimal type; distinct = different (type, printed value)", decimals, 40000, 2000000 } );
}
