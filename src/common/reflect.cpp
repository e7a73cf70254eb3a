#include "common/reflect.h"
#include <cstdio>
#include <map>

namespace refl
{
    std::string number( long double d )
    {
        if( std::isnan( d ) ) return "nan";
        if( std::isinf( d ) ) return d > 0 ? "inf" : "-inf";
        char b[80];
        snprintf( b, sizeof b, "%.6Lf", d );
        std::string s = b;
        while( s.back() == '0' ) s.pop_back();
        if( s.back() == '.' ) s.pop_back();
        if( s == "-0" ) s = "0";
        return s;
    }
    std::string fieldOf( const std::string& path )
    {
        std::string o;
        int in = 0;
        for( char c : path )
        {
            if( c == '[' || c == '{' ) { ++in; continue; }
            if( c == ']' || c == '}' ) { --in; continue; }
            if( !in && c != '?' ) o += c;
        }
        return o;
    }
    std::string Difference::field() const { return fieldOf( path ); }

    static bool below( const std::string& p, const std::string& container )
    {
        return p.size() > container.size() && p.compare( 0, container.size(), container ) == 0
               && ( p[container.size()] == '[' || p[container.size()] == '{' || p[container.size()] == '?' );
    }
    std::vector<Difference> diff( const Flat& a, const Flat& b, size_t max )
    {
        std::vector<Difference> out;
        size_t i = 0, j = 0;
        while( i < a.size() && j < b.size() && out.size() < max )
        {
            if( a[i].first != b[j].first )
            {
                out.push_back( { a[i].first, a[i].second, "(structure differs: " + b[j].first + ")" } );
                break;
            }
            if( a[i].second == b[j].second ) { ++i; ++j; continue; }
            out.push_back( { a[i].first, a[i].second, b[j].second } );
            const std::string p = a[i].first;
            ++i; ++j;
            if( p.back() == '#' )
            {
                const std::string c = p.substr( 0, p.size() - 1 );
                while( i < a.size() && below( a[i].first, c ) ) ++i;
                while( j < b.size() && below( b[j].first, c ) ) ++j;
            }
        }
        return out;
    }
    std::string text( const Flat& f, const Flat* )
    {
        std::string o;
        for( auto& p : f ) o += p.first + " = " + p.second + "\n";
        return o;
    }
    namespace
    {
        template <class T> const Flat& defaultsOf()
        {
            static const Flat f = [] {
                if constexpr( std::is_constructible<T>::value ) return flatten( T{} );
                else if constexpr( std::is_constructible<T, CurveType>::value ) return flatten( T{ CurveType::unspecified } );
                else return flatten( T{ "", "" } );
            }();
            return f;
        }
        struct Printer
        {
            std::string out;
            std::string path;
            template <class X> void operator()( const char* n, const X& x )
            {
                const size_t keep = path.size();
                if( keep ) path += '.';
                path += n;
                any( x, nullptr );
                path.resize( keep );
            }
            template <class X> void any( const X& x, const std::string* )
            {
                if constexpr( IsLeaf<X>::value ) out += path + " = " + show( x ) + "\n";
                else if constexpr( IsVec<X>::value )
                    for( size_t i = 0; i < x.size(); ++i ) sub( "[" + std::to_string( i ) + "]", x[i] );
                else if constexpr( IsMap<X>::value )
                    for( auto& p : x ) sub( "{" + std::to_string( p.first ) + "}", p.second );
                else if constexpr( IsOpt<X>::value ) { if( x ) sub( "?", *x ); }
                else structure( x );
            }
            template <class X> void sub( const std::string& s, const X& x )
            {
                const size_t keep = path.size();
                path += s;
                if constexpr( !IsLeaf<X>::value ) out += path + "\n";
                any( x, nullptr );
                path.resize( keep );
            }
            // prints what differs from a default value
            template <class X> void structure( const X& x )
            {
                std::map<std::string, std::string> d;
                for( auto& p : defaultsOf<X>() ) d[p.first] = p.second;
                for( auto& p : flatten( x ) )
                {
                    if( p.first.find_first_of( "[{?" ) != std::string::npos ) continue;
                    if( p.first.back() == '#' ) continue;
                    auto it = d.find( p.first );
                    if( it == d.end() || it->second != p.second ) out += path + ( path.empty() ? "" : "." ) + p.first + " = " + p.second + "\n";
                }
                Nested n{ *this };
                fields( n, x );
            }
            struct Nested
            {
                Printer& p;
                template <class X> void operator()( const char* n, const X& x )
                {
                    if constexpr( !IsLeaf<X>::value )
                    {
                        const size_t keep = p.path.size();
                        if( keep ) p.path += '.';
                        p.path += n;
                        if constexpr( IsVec<X>::value || IsMap<X>::value || IsOpt<X>::value ) p.any( x, nullptr );
                        else { Nested m{ p }; fields( m, x ); }
                        p.path.resize( keep );
                    }
                }
            };
        };
    }
    std::string showScore( const ScoreData& s )
    {
        Printer p;
        p.structure( s );
        return p.out;
    }
}
