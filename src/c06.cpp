// C06: compound value types agree with their schema lexical rules
#include "common/pbt.h"
#include "common/xml.h"
#include "mx/core/Color.h"
#include "mx/core/CommaSeparatedPositiveIntegers.h"
#include "mx/core/CommaSeparatedText.h"
#include "mx/core/Date.h"
#include "mx/core/FontSize.h"
#include "mx/core/NumberOrNormal.h"
#include "mx/core/PositiveIntegerOrEmpty.h"
#include "mx/core/XsID.h"
#include "mx/core/XsString.h"
#include "mx/core/XsToken.h"
#include "mx/core/YesNoNumber.h"
#include <algorithm>
#include <climits>
#include <cstring>
#include <sstream>

using namespace pbt;
using namespace mx::core;

namespace
{
    template <class T> bool printPaths( const T& x, std::string& out )
    {
        out = toString( x );
        std::ostringstream a, b;
        toStream( a, x );
        b << x;
        return a.str() == out && b.str() == out;
    }
    std::string pad( int v, int w )
    {
        std::string s = std::to_string( v );
        while( (int)s.size() < w ) s = "0" + s;
        return s;
    }
    std::string damage( Tape& t, std::string s )
    {
        const int n = t.range( 1, 2 );
        for( int i = 0; i < n; ++i )
        {
            const size_t at = s.empty() ? 0 : t.below( (uint32_t)s.size() );
            switch( t.below( 6 ) )
            {
                case 0: if( !s.empty() ) s.erase( at, 1 ); break;
                case 1: s.insert( at, 1, t.pick( { 'x', '0', '-', '#', ' ', ',', 'G', '.', '+', '/' } ) ); break;
                case 2: if( !s.empty() ) s[at] = t.pick( { 'x', '0', '9', '-', '#', ' ', 'g', 'f', '.', 'Z' } ); break;
                case 3: s += t.pick( { "0", "Z", " ", "x", "-", "," } ); break;
                case 4: s = s.substr( 0, at ); break;
                default: s = s + s; break;
            }
        }
        return s;
    }

    // ---- colour ----------------------------------------------------------------------------------
    int byteOf( int v ) { return v < 0 ? 0 : v > 255 ? 255 : v; }
    struct ColorModel { int a = 255, r = 255, g = 255, b = 255; bool argb = false; };
    std::string hex2( int v )
    {
        const char* d = "0123456789ABCDEF";
        return { d[v / 16], d[v % 16] };
    }
    std::string printModel( const ColorModel& m ) { return "#" + ( m.argb ? hex2( m.a ) : "" ) + hex2( m.r ) + hex2( m.g ) + hex2( m.b ); }
    bool colorLexical( const std::string& s )
    {
        if( ( s.size() != 7 && s.size() != 9 ) || s[0] != '#' ) return false;
        return s.find_first_not_of( "0123456789ABCDEF", 1 ) == std::string::npos;
    }
    void color( Tape& t, Ctx& c )
    {
        Color x;
        ColorModel m;
        std::string log = "Color:";
        const int n = t.range( 1, 12 );
        auto val = [&] { return t.chance( 1, 6 ) ? t.pick( { -1, -1000, 256, 300, INT_MAX, INT_MIN } ) : (int)t.below( 256 ); };
        for( int i = 0; i < n && !c.failed(); ++i )
        {
            const int v = val();
            switch( t.below( 10 ) )
            {
                case 0: x.setRed( v ); m.r = byteOf( v ); log += " red=" + std::to_string( v ); break;
                case 1: x.setGreen( v ); m.g = byteOf( v ); log += " green=" + std::to_string( v ); break;
                case 2: x.setBlue( v ); m.b = byteOf( v ); log += " blue=" + std::to_string( v ); break;
                case 3: x.setAlpha( v ); m.a = byteOf( v ); m.argb = true; log += " alpha=" + std::to_string( v ); break;
                case 4:
                    if( t.coin() ) { x.setColorType( Color::ColorType::RGB ); m.argb = false; m.a = 255; log += " RGB"; }
                    else { x.setColorType( Color::ColorType::ARGB ); m.argb = true; log += " ARGB"; }
                    break;
                case 5:
                {
                    const int g = val(), b = val();
                    if( t.coin() ) { x = Color( v, g, b ); m = { 255, byteOf( v ), byteOf( g ), byteOf( b ), false }; }
                    else { const int a = val(); x = Color( a, v, g, b ); m = { byteOf( a ), byteOf( v ), byteOf( g ), byteOf( b ), true }; }
                    log += " construct";
                    break;
                }
                case 6: case 7:
                {
                    ColorModel k{ t.coin() ? 255 : (int)t.below( 256 ), (int)t.below( 256 ), (int)t.below( 256 ), (int)t.below( 256 ), t.coin() };
                    if( !k.argb ) k.a = 255;
                    const std::string s = printModel( k );
                    log += " parse " + s;
                    if( t.coin() ) x.parse( s ); else x = Color( s );
                    m = k;
                    break;
                }
                default:
                {
                    std::string s = t.coin() ? damage( t, printModel( m ) ) : xml::genText( t, false );
                    log += " parse \"" + s + "\"";
                    if( colorLexical( s ) ) break;
                    x.parse( s );
                    // text that is no colour leaves the colour as it was
                }
            }
            std::string p;
            if( !printPaths( x, p ) ) c.fail( "color-print-paths", log + ": printing paths differ" );
            if( !colorLexical( p ) ) c.fail( "color-lexical", log + ": prints \"" + p + "\"" );
            if( p != printModel( m ) ) c.fail( "color-print", log + ": prints " + p + ", expected " + printModel( m ) );
            if( x.getRed() != m.r || x.getGreen() != m.g || x.getBlue() != m.b || x.getAlpha() != m.a || ( x.getColorType() == Color::ColorType::ARGB ) != m.argb )
                c.fail( "color-values", log + ": components differ from " + printModel( m ) );
            Color y( p );
            if( toString( y ) != p ) c.fail( "color-reparse", log + ": parsing " + p + " prints " + toString( y ) );
            // the stream's own formatting is left alone
            std::ostringstream os;
            os << x << 255 << ' ' << x << 17;
            if( os.str() != p + "255 " + p + "17" ) c.fail( "color-stream-state", log + ": streaming leaves the stream changed: " + os.str() );
            Color z( x ), w;
            w = x;
            Color u( std::move( z ) );
            w.setRed( 255 - m.r );
            if( toString( u ) != p || toString( x ) != p ) c.fail( "color-copy", log + ": copies are not independent" );
            c.nontrivial( p );
        }
        c.input( log );
    }

    // ---- date ------------------------------------------------------------------------------------
    bool leap( int y ) { return y % 4 == 0 && ( y % 100 != 0 || y % 400 == 0 ); }
    int dim( int y, int m ) { static const int d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && leap( y ) ? 29 : d[m - 1]; }
    struct YMD { int y = 1900, m = 1, d = 1; bool operator==( const YMD& o ) const { return y == o.y && m == o.m && d == o.d; } };
    // day number, 0001-01-01 = 0 (H. Hinnant's days_from_civil, shifted)
    long long dayNo( const YMD& v )
    {
        long long y = v.y;
        const int m = v.m, d = v.d;
        y -= m <= 2;
        const long long era = ( y >= 0 ? y : y - 399 ) / 400;
        const unsigned yoe = (unsigned)( y - era * 400 );
        const unsigned doy = ( 153u * ( m + ( m > 2 ? -3 : 9 ) ) + 2 ) / 5 + d - 1;
        const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
        return era * 146097 + doe - 306;
    }
    YMD fromDayNo( long long z )
    {
        z += 306;
        const long long era = ( z >= 0 ? z : z - 146096 ) / 146097;
        const unsigned doe = (unsigned)( z - era * 146097 );
        const unsigned yoe = ( doe - doe / 1460 + doe / 36524 - doe / 146096 ) / 365;
        long long y = (long long)yoe + era * 400;
        const unsigned doy = doe - ( 365 * yoe + yoe / 4 - yoe / 100 );
        const unsigned mp = ( 5 * doy + 2 ) / 153;
        YMD r;
        r.d = (int)( doy - ( 153 * mp + 2 ) / 5 + 1 );
        r.m = (int)( mp < 10 ? mp + 3 : mp - 9 );
        r.y = (int)( y + ( r.m <= 2 ) );
        return r;
    }
    std::string show( const YMD& v ) { return pad( v.y, 4 ) + "-" + pad( v.m, 2 ) + "-" + pad( v.d, 2 ); }
    bool validYMD( int y, int m, int d ) { return y >= 1 && y <= 9999 && m >= 1 && m <= 12 && d >= 1 && d <= dim( y, m ); }
    bool dateLexical( const std::string& s, YMD& out )
    {
        if( s.size() != 10 || s[4] != '-' || s[7] != '-' ) return false;
        for( int i : { 0, 1, 2, 3, 5, 6, 8, 9 } ) if( s[i] < '0' || s[i] > '9' ) return false;
        out = { atoi( s.substr( 0, 4 ).c_str() ), atoi( s.substr( 5, 2 ).c_str() ), atoi( s.substr( 8, 2 ).c_str() ) };
        return validYMD( out.y, out.m, out.d );
    }
    int clampi( long long v, int lo, int hi ) { return v < lo ? lo : v > hi ? hi : (int)v; }
    YMD genYMD( Tape& t )
    {
        YMD v;
        v.y = t.chance( 1, 8 ) ? t.pick( { 1, 2, 4, 9999, 9998, 9996 } ) : t.chance( 1, 2 ) ? t.pick( { 1600, 1700, 1900, 2000, 2100, 2004, 2015, 1999 } ) : t.range( 1, 9999 );
        v.m = t.chance( 1, 3 ) ? t.pick( { 1, 2, 12 } ) : t.range( 1, 12 );
        v.d = t.chance( 1, 2 ) ? dim( v.y, v.m ) : t.range( 1, dim( v.y, v.m ) );
        return v;
    }
    YMD modelMonths( const YMD& v, long long k )
    {
        const long long months = (long long)v.y * 12 + v.m - 1 + k;
        const long long y = months >= 0 ? months / 12 : -( ( -months + 11 ) / 12 );
        if( y < 1 ) return { 1, 1, 1 };
        if( y > 9999 ) return { 9999, 12, 31 };
        YMD r{ (int)y, (int)( months - y * 12 ) + 1, v.d };
        r.d = std::min( r.d, dim( r.y, r.m ) );
        return r;
    }
    YMD modelYears( YMD v, long long k )
    {
        const long long y = v.y + k;
        const bool isLeap = y >= 1 && y <= 9999 && leap( (int)y );
        if( v.m == 2 && v.d == 29 && !isLeap ) { v.m = 3; v.d = 1; }
        v.y = clampi( y, 1, 9999 );
        return v;
    }
    int delta( Tape& t, int limit )
    {
        return t.chance( 1, 10 ) ? t.pick( { INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1 } ) : t.chance( 1, 3 ) ? t.around( -limit, limit, 0 ) : t.around( -40, 40, 0 );
    }
    void date( Tape& t, Ctx& c )
    {
        Date x;
        YMD m;
        std::string log = "Date:";
        const int n = t.range( 1, 10 );
        for( int i = 0; i < n && !c.failed(); ++i )
        {
            switch( t.below( 13 ) )
            {
                case 0:
                {
                    const YMD v = genYMD( t );
                    log += " construct " + show( v );
                    x = t.coin() ? Date( v.y, v.m, v.d ) : Date( show( v ) );
                    m = v;
                    break;
                }
                case 1:
                {
                    const int v = t.chance( 1, 5 ) ? t.pick( { 0, -1, 10000, INT_MAX, INT_MIN } ) : genYMD( t ).y;
                    x.setYear( v );
                    m.y = clampi( v, 1, 9999 );
                    m.d = std::min( m.d, dim( m.y, m.m ) );
                    log += " year=" + std::to_string( v );
                    break;
                }
                case 2:
                {
                    const int v = t.around( -1, 14, 1 );
                    x.setMonth( v );
                    m.m = clampi( v, 1, 12 );
                    m.d = std::min( m.d, dim( m.y, m.m ) );
                    log += " month=" + std::to_string( v );
                    break;
                }
                case 3:
                {
                    const int v = t.around( -1, 33, 1 );
                    x.setDay( v );
                    m.d = clampi( v, 1, dim( m.y, m.m ) );
                    log += " day=" + std::to_string( v );
                    break;
                }
                case 4:
                {
                    const int y = t.chance( 1, 8 ) ? t.pick( { 0, 10000, -5 } ) : genYMD( t ).y, mo = t.around( 0, 13, 1 ), d = t.around( 0, 32, 28 );
                    const bool ok = x.setValue( y, mo, d );
                    log += " set " + std::to_string( y ) + "/" + std::to_string( mo ) + "/" + std::to_string( d );
                    if( ok != validYMD( y, mo, d ) ) c.fail( "date-set-result", log + ": returned " + ( ok ? "true" : "false" ) );
                    if( validYMD( y, mo, d ) ) m = { y, mo, d };
                    break;
                }
                case 5: { const int k = t.chance( 1, 200 ) ? delta( t, 200000 ) : t.around( -800, 800, 1 ); x.addDays( k ); m = fromDayNo( std::min<long long>( std::max<long long>( dayNo( m ) + k, 0 ), dayNo( { 9999, 12, 31 } ) ) ); log += " addDays " + std::to_string( k ); break; }
                case 6: { const int k = delta( t, 130000 ); x.addMonths( k ); m = modelMonths( m, k ); log += " addMonths " + std::to_string( k ); break; }
                case 7: { const int k = delta( t, 12000 ); x.addYears( k ); m = modelYears( m, k ); log += " addYears " + std::to_string( k ); break; }
                case 8: case 9:
                {
                    std::string s = t.coin() ? show( genYMD( t ) ) : pad( t.range( 0, 9999 ), 4 ) + "-" + pad( t.range( 0, 13 ), 2 ) + "-" + pad( t.range( 0, 32 ), 2 );
                    if( t.chance( 1, 3 ) ) s = damage( t, s );
                    YMD v;
                    const bool ok = dateLexical( s, v );
                    log += " parse \"" + s + "\"";
                    if( x.parse( s ) != ok ) c.fail( "date-parse-result", log + ": " + ( ok ? "a valid date is rejected" : "text that is no date is accepted" ) );
                    if( ok ) m = v;
                    break;
                }
                case 10: { Date y = x++; if( toString( y ) != show( m ) ) c.fail( "date-postinc", log ); m = fromDayNo( std::min( dayNo( m ) + 1, dayNo( { 9999, 12, 31 } ) ) ); log += " ++"; break; }
                case 11: { Date y = x--; if( toString( y ) != show( m ) ) c.fail( "date-postdec", log ); m = fromDayNo( std::max<long long>( dayNo( m ) - 1, 0 ) ); log += " --"; break; }
                default: if( t.coin() ) { ++x; m = fromDayNo( std::min( dayNo( m ) + 1, dayNo( { 9999, 12, 31 } ) ) ); } else { --x; m = fromDayNo( std::max<long long>( dayNo( m ) - 1, 0 ) ); } log += " step"; break;
            }
            if( YMD{ x.getYear(), x.getMonth(), x.getDay() } == m ) {}
            else c.fail( "date-value", log + ": " + toString( x ) + ", expected " + show( m ) );
            std::string p;
            if( !printPaths( x, p ) || p != show( m ) ) c.fail( "date-print", log + ": prints " + p + ", expected " + show( m ) );
            YMD q;
            if( !dateLexical( p, q ) ) c.fail( "date-lexical", log + ": prints " + p );
            if( x.getWeekday() != ( dayNo( m ) + 1 ) % 7 + 1 ) c.fail( "date-weekday", p + " is reported as day " + std::to_string( x.getWeekday() ) );
            if( x.isLeapYear() != leap( m.y ) ) c.fail( "date-leap", p );
            if( x.daysInMonth() != dim( m.y, m.m ) ) c.fail( "date-days", p );
            const YMD o = t.chance( 1, 3 ) ? m : t.coin() ? YMD{ m.y, m.m, t.range( 1, dim( m.y, m.m ) ) } : genYMD( t );
            const Date y( o.y, o.m, o.d );
            const long long cmp = dayNo( m ) - dayNo( o );
            if( ( x == y ) != ( cmp == 0 ) || ( x != y ) != ( cmp != 0 ) || ( x < y ) != ( cmp < 0 ) || ( x > y ) != ( cmp > 0 ) || ( x <= y ) != ( cmp <= 0 ) || ( x >= y ) != ( cmp >= 0 ) )
                c.fail( "date-compare", p + " against " + show( o ) );
            Date z( x ), w;
            w = x;
            Date u( std::move( z ) );
            w.addDays( m.d == 1 ? 1 : -1 );
            if( u != x || toString( x ) != show( m ) ) c.fail( "date-copy", log + ": copies are not independent" );
            if( t.chance( 1, 4 ) ) x = std::move( u );
            c.nontrivial( p );
        }
        c.input( log );
    }

    // ---- a word or a number -----------------------------------------------------------------------
    std::string genDec( Tape& t, std::string& canon )
    {
        // a decimal with at most 12 integer and 6 fraction digits, and its canonical form
        const bool neg = t.chance( 1, 3 );
        const int ni = t.range( 0, t.chance( 1, 4 ) ? 12 : 3 );
        int nf = t.range( 0, 6 );
        if( ni + nf == 0 ) nf = 1;
        std::string a, b;
        for( int i = 0; i < ni; ++i ) a += (char)( '0' + ( t.chance( 1, 3 ) ? 0 : t.below( 10 ) ) );
        for( int i = 0; i < nf; ++i ) b += (char)( '0' + ( t.chance( 1, 3 ) ? 0 : t.below( 10 ) ) );
        std::string text = neg ? "-" : t.chance( 1, 8 ) ? "+" : "";
        text += a;
        if( nf || ( ni && t.chance( 1, 10 ) ) ) text += "." + b;
        const size_t z = a.find_first_not_of( '0' );
        std::string ca = z == std::string::npos ? "0" : a.substr( z );
        std::string cb = b.substr( 0, b.find_last_not_of( '0' ) + 1 );
        canon = ca + ( cb.empty() ? "" : "." + cb );
        if( neg && canon != "0" ) canon = "-" + canon;
        return text;
    }
    bool plainDecimal( const std::string& s )
    {
        size_t i = 0, n = 0;
        if( i < s.size() && ( s[i] == '-' || s[i] == '+' ) ) ++i;
        while( i < s.size() && isdigit( (unsigned char)s[i] ) ) { ++i; ++n; }
        if( i < s.size() && s[i] == '.' ) { ++i; while( i < s.size() && isdigit( (unsigned char)s[i] ) ) { ++i; ++n; } }
        return i == s.size() && n > 0;
    }
    bool looksNumeric( std::string s ) // conservatively: anything a stream might take for a number
    {
        return s.find_first_of( "0123456789" ) != std::string::npos || s.find( "inf" ) != std::string::npos || s.find( "nan" ) != std::string::npos || s.find( "INF" ) != std::string::npos || s.find( "NAN" ) != std::string::npos || s.find( "NaN" ) != std::string::npos || s.find( "Inf" ) != std::string::npos;
    }
    // W: the class; words: its words
    template <class W, class SetWord, class SetNum, class IsWord, class Parse>
    void wordOrNumber( Tape& t, Ctx& c, const char* name, const std::vector<std::string>& words, W x, SetWord setWord, SetNum setNum, IsWord isWord, Parse parse, bool reportsResult )
    {
        std::string log = std::string( name ) + ":";
        std::string expect = toString( x );
        bool word = isWord( x );
        const int n = t.range( 1, 10 );
        for( int i = 0; i < n && !c.failed(); ++i )
        {
            std::string canon;
            bool known = true;
            switch( t.below( 5 ) )
            {
                case 0: { const std::string w = t.pick( words ); setWord( x, w ); expect = w; word = true; log += " set " + w; break; }
                case 1: { const std::string s = genDec( t, canon ); setNum( x, s ); expect = canon; word = false; log += " set " + s; break; }
                case 2: { const std::string w = t.pick( words ); log += " parse " + w; if( t.coin() ) { if( !parse( x, w ) && reportsResult ) c.fail( std::string( "word-rejected:" ) + name, w ); } else x = W( w ); expect = w; word = true; break; }
                case 3: { const std::string s = genDec( t, canon ); log += " parse " + s; if( t.coin() ) { if( !parse( x, s ) && reportsResult ) c.fail( std::string( "number-rejected:" ) + name, s ); } else x = W( s ); expect = canon; word = false; break; }
                default:
                {
                    std::string s = t.coin() ? damage( t, t.pick( words ) ) : xml::genText( t, false );
                    if( std::find( words.begin(), words.end(), s ) != words.end() || looksNumeric( s ) ) { known = true; break; }
                    log += " parse \"" + s + "\"";
                    const bool ok = parse( x, s );
                    if( reportsResult )
                    {
                        if( ok ) c.fail( std::string( "text-accepted:" ) + name, log );
                    }
                    else known = false; // no result is reported: only validity is promised
                }
            }
            std::string p;
            if( !printPaths( x, p ) ) c.fail( std::string( "word-print-paths:" ) + name, log );
            if( !plainDecimal( p ) && std::find( words.begin(), words.end(), p ) == words.end() ) c.fail( std::string( "word-lexical:" ) + name, log + ": prints \"" + p + "\"" );
            if( known )
            {
                if( p != expect ) c.fail( std::string( "word-print:" ) + name, log + ": prints \"" + p + "\", expected \"" + expect + "\"" );
                if( isWord( x ) != word ) c.fail( std::string( "word-kind:" ) + name, log );
            }
            else { expect = p; word = isWord( x ); }
            W y( p );
            if( toString( y ) != p || isWord( y ) != isWord( x ) ) c.fail( std::string( "word-reparse:" ) + name, log + ": parsing \"" + p + "\" gives \"" + toString( y ) + "\"" );
            W z( x );
            y = x;
            W u( std::move( z ) );
            std::string dummy;
            setWord( y, words.back() );
            if( toString( u ) != p || toString( x ) != p ) c.fail( std::string( "word-copy:" ) + name, log + ": copies are not independent" );
            if( t.chance( 1, 4 ) ) x = std::move( u );
            c.nontrivial( std::string( name ) + "=" + p );
        }
        c.input( log );
        c.tag( name );
    }
    DecimalType num( const std::string& s ) { return strtold( s.c_str(), nullptr ); }
    const std::vector<std::string>& cssSizes()
    {
        static const auto v = xml::grammar().simpleByName.at( "css-font-size" )->enums;
        return v;
    }
    void unions( Tape& t, Ctx& c )
    {
        switch( t.below( 4 ) )
        {
            case 0:
                wordOrNumber( t, c, "FontSize", cssSizes(), FontSize(), []( FontSize& x, const std::string& w ) { x.setCssFontSize( *tryParseCssFontSize( w ) ); }, []( FontSize& x, const std::string& s ) { x.setDecimal( Decimal( num( s ) ) ); },
                              [&c]( const FontSize& x ) { if( x.getIsDecimal() == x.getIsCssFontSize() ) c.fail( "kind-flags:FontSize", "both or neither" ); return x.getIsCssFontSize(); }, []( FontSize& x, const std::string& s ) { return x.parse( s ); }, true );
                break;
            case 1:
                wordOrNumber( t, c, "YesNoNumber", { "yes", "no" }, YesNoNumber(), []( YesNoNumber& x, const std::string& w ) { x.setYesNo( *tryParseYesNo( w ) ); }, []( YesNoNumber& x, const std::string& s ) { x.setDecimal( Decimal( num( s ) ) ); },
                              [&c]( const YesNoNumber& x ) { if( x.getIsDecimal() == x.getIsYesNo() ) c.fail( "kind-flags:YesNoNumber", "both or neither" ); return x.getIsYesNo(); }, []( YesNoNumber& x, const std::string& s ) { return x.parse( s ); }, true );
                break;
            case 2:
                wordOrNumber( t, c, "NumberOrNormal", { "normal" }, NumberOrNormal(), []( NumberOrNormal& x, const std::string& ) { x.setValueNormal(); }, []( NumberOrNormal& x, const std::string& s ) { x.setValue( Decimal( num( s ) ) ); },
                              [&c]( const NumberOrNormal& x ) { if( x.getIsNormal() == x.getIsNumber() ) c.fail( "kind-flags:NumberOrNormal", "both or neither" ); return x.getIsNormal(); }, []( NumberOrNormal& x, const std::string& s ) { x.parse( s ); return true; }, false );
                break;
            default:
            {
                c.tag( "PositiveIntegerOrEmpty" );
                PositiveIntegerOrEmpty x;
                std::string log = "PositiveIntegerOrEmpty:", expect;
                const int n = t.range( 1, 8 );
                for( int i = 0; i < n && !c.failed(); ++i )
                {
                    const int v = t.chance( 1, 6 ) ? t.pick( { 0, -1, INT_MAX, INT_MIN, -77 } ) : t.range( 1, 3000 );
                    const int k = v < 1 ? 1 : v;
                    bool known = true;
                    switch( t.below( 5 ) )
                    {
                        case 0: x.setValueEmpty(); expect = ""; log += " empty"; break;
                        case 1: x.setValue( PositiveInteger( v ) ); expect = std::to_string( k ); log += " set " + std::to_string( v ); break;
                        case 2: { const std::string s = ( t.chance( 1, 6 ) && v > 0 ? "+" : t.chance( 1, 6 ) && v > 0 ? "00" : "" ) + std::to_string( v ); if( t.coin() ) x.parse( s ); else x = PositiveIntegerOrEmpty( s ); expect = std::to_string( k ); log += " parse " + s; break; }
                        case 3: if( t.coin() ) x.parse( "" ); else x = PositiveIntegerOrEmpty( std::string() ); expect = ""; log += " parse \"\""; break;
                        default: { const std::string s = xml::genText( t, false ); if( looksNumeric( s ) || s.empty() ) break; x.parse( s ); known = false; log += " parse \"" + s + "\""; }
                    }
                    std::string p;
                    if( !printPaths( x, p ) ) c.fail( "posint-print-paths", log );
                    if( p.find_first_not_of( "0123456789" ) != std::string::npos || ( !p.empty() && p[0] == '0' ) ) c.fail( "posint-lexical", log + ": prints \"" + p + "\"" );
                    if( known && p != expect ) c.fail( "posint-print", log + ": prints \"" + p + "\", expected \"" + expect + "\"" );
                    if( !known ) expect = p;
                    if( x.getIsEmpty() != p.empty() || x.getIsNumber() == p.empty() ) c.fail( "posint-kind", log );
                    if( !p.empty() && x.getValueNumber().getValue() != atoi( p.c_str() ) ) c.fail( "posint-value", log );
                    PositiveIntegerOrEmpty y( p ), z( x );
                    if( toString( y ) != p ) c.fail( "posint-reparse", log );
                    y = z;
                    PositiveIntegerOrEmpty u( std::move( z ) );
                    y.setValue( PositiveInteger( 4711 ) );
                    if( toString( x ) != p || toString( u ) != p ) c.fail( "posint-copy", log );
                    c.nontrivial( "PositiveIntegerOrEmpty=" + p );
                }
                c.input( log );
            }
        }
    }

    // ---- lists -----------------------------------------------------------------------------------
    void intList( Tape& t, Ctx& c )
    {
        CommaSeparatedListOfPositiveIntegers x;
        std::set<int> m;
        bool space = false;
        std::string log = "integers:";
        const int n = t.range( 1, 8 );
        for( int i = 0; i < n && !c.failed(); ++i )
        {
            std::vector<int> v;
            while( t.more( 3 ) && v.size() < 12 ) v.push_back( t.chance( 1, 12 ) ? t.pick( { INT_MAX, 1000000, 65536 } ) : t.range( 1, 20 ) );
            const bool messy = t.chance( 1, 3 );
            switch( t.below( 5 ) )
            {
                case 0:
                {
                    std::set<int> s( v.begin(), v.end() );
                    if( messy ) { s.insert( 0 ); s.insert( -3 ); }
                    if( t.coin() ) x.setValues( s ); else { x = CommaSeparatedListOfPositiveIntegers( s ); x.setUseSpaceBetweenItems( space ); }
                    m = std::set<int>( v.begin(), v.end() );
                    log += " set " + std::to_string( m.size() );
                    break;
                }
                case 1: space = t.coin(); x.setUseSpaceBetweenItems( space ); log += space ? " spaces" : " no-spaces"; break;
                case 2: case 3:
                {
                    std::string s;
                    const bool sp = t.coin();
                    for( size_t k = 0; k < v.size(); ++k ) s += ( k ? sp ? ", " : "," : "" ) + std::to_string( v[k] );
                    if( v.empty() && t.coin() ) s = "   ";
                    log += " parse \"" + s + "\"";
                    if( t.coin() ) x.parse( s ); else { x = CommaSeparatedListOfPositiveIntegers( s ); x.setUseSpaceBetweenItems( space ); }
                    m = std::set<int>( v.begin(), v.end() );
                    break;
                }
                default:
                {
                    const std::string s = t.coin() ? damage( t, toString( x ) ) : xml::genText( t, false );
                    log += " parse \"" + s + "\"";
                    x.parse( s );
                    m = x.getValues();
                }
            }
            if( x.getValues() != m ) c.fail( "intlist-values", log + ": holds " + toString( x ) );
            std::string p, want;
            if( !printPaths( x, p ) ) c.fail( "intlist-print-paths", log );
            for( int k : m )
            {
                if( k < 1 ) c.fail( "intlist-positive", log + ": holds " + std::to_string( k ) );
                want += ( want.empty() ? "" : space ? ", " : "," ) + std::to_string( k );
            }
            if( p != want ) c.fail( "intlist-print", log + ": prints \"" + p + "\", expected \"" + want + "\"" );
            CommaSeparatedListOfPositiveIntegers y( p ), z( x );
            if( y.getValues() != m ) c.fail( "intlist-reparse", log + ": \"" + p + "\" is read as " + toString( y ) );
            if( std::vector<int>( x.getValuesBegin(), x.getValuesEnd() ) != std::vector<int>( m.begin(), m.end() ) || std::vector<int>( x.getValuesBeginConst(), x.getValuesEndConst() ) != std::vector<int>( m.begin(), m.end() ) )
                c.fail( "intlist-iterate", log );
            z.setValues( { 4711 } );
            if( x.getValues() != m ) c.fail( "intlist-copy", log );
            if( x.getUseSpaceBetweenItems() != space ) c.fail( "intlist-space", log );
            c.nontrivial( p );
        }
        c.input( log );
    }
    std::string collapse( const std::string& s )
    {
        std::string o;
        bool gap = false;
        for( char ch : s )
        {
            if( ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' ) { gap = true; continue; }
            if( gap && !o.empty() ) o += ' ';
            gap = false;
            o += ch;
        }
        return o;
    }
    std::string plainItem( Tape& t )
    {
        std::string s;
        for( int k = 0; k < 10 && s.empty(); ++k )
        {
            s = xml::genText( t, t.coin() );
            s.erase( std::remove( s.begin(), s.end(), ',' ), s.end() );
            s = collapse( s );
        }
        return s.empty() ? "Arial" : s;
    }
    std::string unescape( std::string s )
    {
        static const std::pair<const char*, const char*> e[] = { { "&lt;", "<" }, { "&gt;", ">" }, { "&quot;", "\"" }, { "&apos;", "'" }, { "&amp;", "&" } };
        std::string o;
        for( size_t i = 0; i < s.size(); )
        {
            bool hit = false;
            for( auto& p : e ) if( s.compare( i, strlen( p.first ), p.first ) == 0 ) { o += p.second; i += strlen( p.first ); hit = true; break; }
            const size_t end = s.find( ';', i );
            if( !hit && s.compare( i, 2, "&#" ) == 0 && end != std::string::npos && end < i + 6 )
            {
                o += (char)( s[i + 2] == 'x' ? strtol( s.c_str() + i + 3, nullptr, 16 ) : strtol( s.c_str() + i + 2, nullptr, 10 ) );
                i = end + 1;
                hit = true;
            }
            if( !hit ) o += s[i++];
        }
        return o;
    }
    void textList( Tape& t, Ctx& c )
    {
        CommaSeparatedText x;
        std::vector<std::string> m;
        std::string log = "texts:";
        const int n = t.range( 1, 8 );
        for( int i = 0; i < n && !c.failed(); ++i )
        {
            std::vector<std::string> v;
            while( t.more( 2 ) && v.size() < 8 ) v.push_back( plainItem( t ) );
            switch( t.below( 4 ) )
            {
                case 0:
                {
                    XsTokenSet s;
                    for( auto& k : v ) s.push_back( XsToken( ( t.chance( 1, 4 ) ? " " : "" ) + k ) );
                    if( t.coin() ) x.setValues( s ); else x = CommaSeparatedText( s );
                    m = v;
                    log += " set";
                    break;
                }
                case 1: { const std::string s = plainItem( t ); x.addValue( XsToken( s ) ); m.push_back( s ); log += " add \"" + s + "\""; break; }
                case 2:
                {
                    std::string s;
                    const bool sp = t.coin();
                    for( size_t k = 0; k < v.size(); ++k ) s += ( k ? sp ? ", " : "," : "" ) + v[k];
                    log += " parse \"" + s + "\"";
                    if( t.coin() ) x.parse( s ); else x = CommaSeparatedText( s );
                    m = v;
                    break;
                }
                default:
                {
                    std::string s;
                    while( t.more( 3 ) ) s += t.pick( { ",", " ", ", ", "a", "Times", ",,", "\n" } );
                    log += " parse \"" + s + "\"";
                    x.parse( s );
                    m.clear();
                    // the items that are not empty
                    std::istringstream is( s );
                    for( std::string k; std::getline( is, k, ',' ); ) if( !collapse( k ).empty() ) m.push_back( collapse( k ) );
                }
            }
            std::vector<std::string> got;
            for( auto& k : x.getValues() ) got.push_back( k.getValue() );
            if( got != m ) c.fail( "textlist-values", log + ": holds " + std::to_string( got.size() ) + " items, expected " + std::to_string( m.size() ) );
            std::string p, want;
            if( !printPaths( x, p ) ) c.fail( "textlist-print-paths", log );
            for( auto& k : m ) want += ( want.empty() ? "" : "," ) + k;
            // the printed form is XML text: mark-up characters are escaped
            if( unescape( p ) != want ) c.fail( "textlist-print", log + ": prints \"" + p + "\", expected \"" + want + "\"" );
            if( p.find( '<' ) != std::string::npos ) c.fail( "textlist-escape", log + ": prints \"" + p + "\"" );
            CommaSeparatedText z( x );
            z.addValue( XsToken( "x" ) );
            if( x.getValues().size() != m.size() ) c.fail( "textlist-copy", log );
            if( (size_t)std::distance( x.getValuesBegin(), x.getValuesEnd() ) != m.size() || (size_t)std::distance( x.getValuesBeginConst(), x.getValuesEndConst() ) != m.size() ) c.fail( "textlist-iterate", log );
            c.nontrivial( p );
        }
        c.input( log );
    }

    // ---- strings, tokens and ids --------------------------------------------------------------------
    bool ncName( const std::string& s )
    {
        if( s.empty() || !( isalpha( (unsigned char)s[0] ) || s[0] == '_' || (unsigned char)s[0] >= 0x80 ) ) return false;
        for( unsigned char ch : s ) if( !( isalnum( ch ) || ch == '_' || ch == '-' || ch == '.' || ch >= 0x80 ) ) return false;
        return true;
    }
    void strings( Tape& t, Ctx& c )
    {
        std::string raw = xml::genText( t, t.chance( 1, 3 ) );
        if( t.chance( 1, 4 ) ) raw = t.pick( { " ", "\t", "\n", "\r\n", "  " } ) + raw + t.pick( { "", " ", "\n" } );
        if( t.chance( 1, 10 ) ) raw = t.pick( { "", " ", "\n\t ", "a  b", " a\tb\n\nc " } );
        const int kind = t.below( 3 );
        c.input( std::string( kind == 0 ? "XsString" : kind == 1 ? "XsToken" : "XsID" ) + " \"" + raw + "\"" );
        if( kind == 0 )
        {
            XsString x;
            if( t.coin() ) x.setValue( raw ); else x = XsString( raw );
            if( x.getValue() != raw || toString( x ) != raw ) c.fail( "string-value", "holds \"" + x.getValue() + "\"" );
            std::ostringstream os, plain, op;
            toStream( os, x );
            toStream( plain, x, false );
            op << x;
            if( plain.str() != raw ) c.fail( "string-raw", "streams \"" + plain.str() + "\"" );
            if( os.str().find_first_of( "<>" ) != std::string::npos || unescape( os.str() ) != raw ) c.fail( "string-escape", "streams \"" + os.str() + "\"" );
            if( op.str() != os.str() ) c.fail( "string-print-paths", op.str() );
            c.nontrivial( "s" + raw );
        }
        else if( kind == 1 )
        {
            XsToken x;
            if( t.coin() ) x.setValue( raw ); else if( t.coin() ) x = XsToken( raw ); else { XsString& b = x; b.setValue( raw ); }
            const std::string want = collapse( raw );
            if( x.getValue() != want || toString( x ) != want ) c.fail( "token-value", "\"" + raw + "\" is held as \"" + x.getValue() + "\"" );
            XsToken y( x.getValue() );
            if( y.getValue() != want ) c.fail( "token-idempotent", y.getValue() );
            c.nontrivial( "t" + raw );
        }
        else
        {
            if( t.coin() )
            {
                // a valid name
                raw = t.pick( { "P1", "_", "x", "id", "Z" } );
                while( t.more( 4 ) ) raw += t.pick( { "-", ".", "_", "0", "9", "a", "Q" } );
            }
            if( t.chance( 1, 6 ) ) raw = t.pick( { "1", "-a", ".b", "9-9", "a b", "a:b", "-", "." } );
            XsID x;
            if( t.coin() ) x.setValue( raw ); else if( t.coin() ) x = XsID( raw ); else { XsString& b = x; b.setValue( raw ); }
            const std::string v = x.getValue();
            if( !ncName( v ) ) c.fail( "id-lexical", "\"" + raw + "\" is held as \"" + v + "\", which is no valid name" );
            bool ascii = true;
            for( unsigned char ch : raw ) if( ch >= 0x80 ) ascii = false;
            if( ascii && ncName( raw ) && v != raw ) c.fail( "id-value", "the valid name \"" + raw + "\" is held as \"" + v + "\"" );
            XsID y( v );
            if( y.getValue() != v ) c.fail( "id-idempotent", "\"" + v + "\" is held as \"" + y.getValue() + "\"" );
            c.nontrivial( "i" + raw );
        }
    }
    // names with letters outside ASCII are in the schema's lexical space too
    void foreignIds( Tape& t, Ctx& c )
    {
        std::string a;
        const int n = t.range( 1, 5 );
        bool foreign = false;
        for( int i = 0; i < n; ++i )
        {
            const bool f = t.coin();
            foreign |= f;
            a += f ? t.pick( { "\xC3\xA9", "\xC3\xBC", "\xCE\xB1", "\xD0\x96", "\xE6\xBC\xA2" } ) : t.pick( { "a", "Z", "_" } );
        }
        c.input( "XsID \"" + a + "\"" );
        if( !foreign ) throw Discard{};
        c.nontrivial( a );
        if( XsID( a ).getValue() != a ) c.fail( "id-foreign", "the valid name \"" + a + "\" is held as \"" + XsID( a ).getValue() + "\"" );
    }

    PBT_PROPERTY( { "C06", "color", "a random history of component changes, constructions and parses of valid and damaged text; distinct = printed colour", color, 30000, 1000000 } );
    PBT_PROPERTY( { "C06", "date", "a random history of field changes, calendar arithmetic and parses against a day-number model; distinct = resulting date", date, 30000, 1000000 } );
    PBT_PROPERTY( { "C06", "unions", "a random history on a type holding a word or a number; distinct = (type, printed value)", unions, 40000, 1500000 } );
    PBT_PROPERTY( { "C06", "integer-lists", "a random history on a list of positive integers; distinct = printed list", intList, 20000, 1000000 } );
    PBT_PROPERTY( { "C06", "text-lists", "a random history on a comma separated text list; distinct = printed list", textList, 20000, 1000000 } );
    PBT_PROPERTY( { "C06", "strings", "random text given to string, token and id types; distinct = (type, text)", strings, 40000, 1500000 } );
    PBT_PROPERTY( { "C06", "foreign-ids", "a valid name with letters outside ASCII; distinct = name", foreignIds, 500, 5000 } );
}
