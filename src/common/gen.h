// Random values for every api structure, driven by the field list in reflect.h.
#pragma once
#include "common/pbt.h"
#include "common/reflect.h"
#include <climits>

namespace gen
{
    using namespace mx::api;

    template <class E> struct EnumRange;
#define E( T, LO, HI ) template <> struct EnumRange<T> { static constexpr int lo = (int)T::LO, hi = (int)T::HI; };
    E( Bool, unspecified, no )
    E( Placement, unspecified, below )
    E( MeasureNumbering, unspecified, system )
    E( AppearanceType, LineWidth, OtherAppearance )
    E( BarlineType, unspecified, heavyHeavy )
    E( EndingType, none, discontinue )
    E( ChordKind, unspecified, none )
    E( ExtensionType, add, alter )
    E( ExtensionNumber, first, thirteenth )
    E( ExtensionAlter, none, doubleSharp )
    E( ClefSymbol, none, jianpu )
    E( ClefLocation, unspecified, midMeasure )
    E( CurveType, unspecified, tie )
    E( CurveOrientation, unspecified, underhand )
    E( DurationName, unspecified, dur1024th )
    E( FontSizeType, unspecified, point )
    E( CssSize, unspecified, xxLarge )
    E( FontStyle, unspecified, italic )
    E( FontWeight, unspecified, bold )
    E( KeyMode, unspecified, minor )
    E( LineType, unspecified, wavy )
    E( LineHook, unspecified, none )
    E( MarkType, unspecified, customAccentTenuto )
    E( NoteType, normal, cue )
    E( Notehead, slash, ti )
    E( Beam, unspecified, backwardBroken )
    E( Stem, unspecified, both )
    E( OttavaType, unspecified, o15mb )
    E( SoloOrEnsemble, unspecified, ensemble )
    E( BracketType, unspecified, square )
    E( Step, unspecified, b )
    E( Accidental, none, koron )
    E( VerticalAlignment, unspecified, baseline )
    E( HorizontalAlignment, unspecified, right )
    E( MusicXmlVersion, unspecified, ThreePointZero )
    E( TempoType, unspecified, tempoText )
    E( TimeSignatureSymbol, unspecified, cut )
    E( WedgeType, unspecified, diminuendo )
    E( SoundID, unspecified, woodWoodBlock )
#undef E

    template <class T> T make()
    {
        if constexpr( std::is_constructible<T>::value ) return T{};
        else if constexpr( std::is_constructible<T, CurveType>::value ) return T{ CurveType::unspecified };
        else return T{ "", "" };
    }

    struct Opts
    {
        int density = 30;    // percent of leaves that get a random value
        double vec = 0.8;    // mean container length
        int depthVec = 3;    // containers longer than this are cut
        bool wild = false;   // numbers far outside the usual ranges
        bool simpleText = true;
        int budget = 4000;   // leaves assigned at most
    };

    int randomInt( pbt::Tape& t, bool wild );
    long double randomDecimal( pbt::Tape& t, bool wild );
    std::string randomText( pbt::Tape& t, bool simple );

    template <class E> E randomEnum( pbt::Tape& t ) { return (E)t.range( EnumRange<E>::lo, EnumRange<E>::hi ); }

    template <class X> void randomLeaf( pbt::Tape& t, X& x, const Opts& o )
    {
        if constexpr( std::is_same<X, bool>::value ) x = t.coin();
        else if constexpr( std::is_enum<X>::value ) x = randomEnum<X>( t );
        else if constexpr( std::is_same<X, std::string>::value ) x = randomText( t, o.simpleText );
        else if constexpr( std::is_floating_point<X>::value ) x = (X)randomDecimal( t, o.wild );
        else x = (X)randomInt( t, o.wild );
    }

    // fills every field of a structure
    struct Filler
    {
        pbt::Tape& t;
        Opts o;
        template <class X> void operator()( const char*, X& x ) { any( x ); }
        template <class X> void any( X& x )
        {
            if constexpr( refl::IsLeaf<X>::value )
            {
                if( o.budget > 0 && t.chance( (uint32_t)o.density, 100 ) ) { --o.budget; randomLeaf( t, x, o ); }
            }
            else if constexpr( refl::IsVec<X>::value )
            {
                using V = typename X::value_type;
                x.clear();
                while( o.budget > 0 && (int)x.size() < o.depthVec && t.more( o.vec ) )
                {
                    --o.budget;
                    V v = make<V>();
                    any( v );
                    x.push_back( std::move( v ) );
                }
            }
            else if constexpr( refl::IsMap<X>::value )
            {
                while( o.budget > 0 && (int)x.size() < o.depthVec && t.more( o.vec ) )
                {
                    --o.budget;
                    auto v = make<typename X::mapped_type>();
                    any( v );
                    x.emplace( t.range( 0, 6 ), std::move( v ) );
                }
            }
            else if constexpr( refl::IsOpt<X>::value )
            {
                x.reset();
                if( t.chance( (uint32_t)o.density, 100 ) )
                {
                    auto v = make<typename X::value_type>();
                    any( v );
                    x = std::move( v );
                }
            }
            else refl::fields( *this, x );
        }
    };
    template <class X> void fill( pbt::Tape& t, X& x, const Opts& o )
    {
        Filler f{ t, o };
        f.any( x );
    }

    // changes exactly one place: leaf number `index` in walking order (containers count as places)
    struct Mutator
    {
        pbt::Tape& t;
        size_t index, seen = 0;
        bool done = false;
        std::string path, was, is;
        template <class X> void leaf( const std::string& p, X& x )
        {
            if( seen++ != index || done ) return;
            done = true;
            path = p;
            was = refl::show( x );
            if constexpr( std::is_same<X, bool>::value ) x = !x;
            else if constexpr( std::is_enum<X>::value )
            {
                const int n = EnumRange<X>::hi - EnumRange<X>::lo + 1;
                int k = (int)x - EnumRange<X>::lo;
                if( k < 0 || k >= n ) k = 0;
                x = (X)( EnumRange<X>::lo + ( k + 1 + (int)t.below( (uint32_t)( n - 1 ) ) ) % n );
            }
            else if constexpr( std::is_same<X, std::string>::value )
            {
                switch( t.below( 4 ) )
                {
                case 0: x += 'x'; break;
                case 1: x = "x" + x; break;
                case 2: if( x.empty() ) x = " "; else x.pop_back(); break;
                default: if( x.empty() ) x = "y"; else x[t.below( (uint32_t)x.size() )] ^= 1; break;
                }
            }
            else if constexpr( std::is_floating_point<X>::value )
            {
                X d = (X)t.pick<double>( { 1, -1, 0.5, -0.25, 0.001, 1000 } );
                if( std::isnan( (long double)x ) || std::isinf( (long double)x ) || std::fabs( (long double)x ) > 1e9L ) x = 1; else x += d;
            }
            else
            {
                X d = (X)t.pick<int>( { 1, 2, -1, 10, 1000000 } );
                if( (long long)x + d > (long long)INT_MAX || (long long)x + d < (long long)INT_MIN ) x = 0; else x += d;
            }
            is = refl::show( x );
        }
        template <class X> void size( const std::string& p, X& x )
        {
            if( seen++ != index || done ) return;
            done = true;
            path = p + "#";
            was = std::to_string( refl::sizeOf( x ) );
            if constexpr( refl::IsVec<X>::value )
            {
                using V = typename X::value_type;
                if( x.empty() || t.coin() ) x.insert( x.begin() + t.below( (uint32_t)x.size() + 1 ), make<V>() );
                else x.erase( x.begin() + t.below( (uint32_t)x.size() ) );
            }
            else if constexpr( refl::IsMap<X>::value )
            {
                if( x.empty() || t.coin() )
                {
                    int k = x.empty() ? 0 : x.rbegin()->first + 1;
                    x.emplace( k, make<typename X::mapped_type>() );
                }
                else x.erase( x.begin() );
            }
            else
            {
                if( x ) x.reset(); else x = make<typename X::value_type>();
            }
            is = std::to_string( refl::sizeOf( x ) );
            done = true;
        }
    };
    struct Counter
    {
        size_t n = 0;
        template <class X> void leaf( const std::string&, X& ) { ++n; }
        template <class X> void size( const std::string&, X& ) { ++n; }
    };
    template <class X> size_t places( const X& x )
    {
        Counter c;
        refl::walk( c, x );
        return c.n;
    }
}
