// A10: documents created from any score data are well-formed, valid and consistent in time
#include "common/score.h"
#include "common/xml.h"
#include "common/mxio.h"
#include "mx/api/DocumentManager.h"
#include <sstream>
#include <cstring>
using namespace mx::api;

namespace
{
    // Positions within each measure, in units of its divisions: a backup may not lead before the
    // start of the measure, and a chord member needs a note to go with.
    void timePositions( pbt::Ctx& c, const xml::Node& root )
    {
        for( auto& part : root.kids )
        {
            if( part.name != "part" ) continue;
            int mi = 0;
            for( auto& m : part.kids )
            {
                ++mi;
                if( m.name != "measure" ) continue;
                long double now = 0;
                bool note = false;
                const std::string where = "measure " + std::to_string( mi ) + ": ";
                for( auto& e : m.kids )
                {
                    long double d = 0;
                    bool chord = false, grace = false, has = false;
                    for( auto& k : e.kids )
                    {
                        if( k.name == "duration" ) { has = true; d = strtold( k.text.c_str(), nullptr ); }
                        if( k.name == "chord" ) chord = true;
                        if( k.name == "grace" ) grace = true;
                    }
                    if( e.name == "note" )
                    {
                        if( chord && !note ) c.fail( "chord-without-note", where + "a chord member has no note before it\n" );
                        note = true;
                        if( !chord && !grace ) now += d;
                        if( grace && has ) c.fail( "grace-with-duration", where + "a grace note has a duration\n" );
                    }
                    else if( e.name == "forward" ) now += d, note = false;
                    else if( e.name == "backup" )
                    {
                        now -= d, note = false;
                        if( now < -0.5e-6L ) { c.fail( "backup-before-start", where + "a backup of " + std::to_string( (double)d ) + " leads before the start of the measure\n" ); now = 0; }
                    }
                }
            }
        }
    }
    std::string classOf( std::string m )
    {
        // libxml2: "Element 'x', attribute 'y': ..."
        std::string o;
        if( m.compare( 0, 5, "line " ) == 0 && m.find( ": " ) != std::string::npos ) m = m.substr( m.find( ": " ) + 2 );
        bool quoted = false, value = false;
        for( size_t i = 0; i < m.size() && m[i] != '\n' && o.size() < 120; ++i )
        {
            if( m.compare( i, 6, "value " ) == 0 || m.compare( i, 10, "The value " ) == 0 ) value = true;
            if( m[i] == '\'' ) { quoted = !quoted; if( !quoted && value ) { value = false; continue; } }
            if( quoted && value ) continue;
            o += isdigit( (unsigned char)m[i] ) ? '#' : m[i] == ' ' ? '-' : m[i];
        }
        return o;
    }

    void check( pbt::Ctx& c, const ScoreData& s )
    {
        auto& dm = DocumentManager::getInstance();
        int id = -1;
        c.input( refl::showScore( s ) );
        try { id = dm.createFromScore( s ); }
        catch( const std::exception& e ) { c.tag( "refused" ); c.tag( "refused: " + std::string( e.what() ).substr( 0, 90 ) ); return; }
        catch( ... ) { c.fail( "not-a-standard-exception", "createFromScore threw something that is not a std::exception\n" ); return; }
        struct Release { int id; ~Release() { DocumentManager::getInstance().destroyDocument( id ); } } release{ id };
        std::ostringstream os;
        try { dm.writeToStream( id, os ); }
        catch( const std::exception& e ) { c.fail( "not-writable", std::string( "the created document cannot be written: " ) + e.what() + "\n" ); return; }
        const std::string x = os.str();
        c.input( refl::showScore( s ) + "\n" + x );
        auto p = xml::parse( x );
        if( !p.ok ) { c.fail( "not-well-formed", p.error + "\n" ); return; }
        const std::string invalid = xml::validate( x );
        if( !invalid.empty() )
        {
            std::istringstream lines( invalid );
            for( std::string l; std::getline( lines, l ); )
                if( !l.empty() ) c.fail( "invalid: " + classOf( l ), l + "\n" );
        }
        timePositions( c, p.root );
        try
        {
            std::istringstream is( x );
            const int again = dm.createFromStream( is );
            Release r2{ again };
            std::ostringstream o2;
            dm.writeToStream( again, o2 );
            std::string y = o2.str();
            if( x != y ) c.fail( "read-differs", "the written document is read and written differently\n" + y );
        }
        catch( const std::exception& e ) { c.fail( "not-readable", std::string( "the written document is rejected: " ) + e.what() + "\n" ); }
    }
    // What the data must keep to: dots are elements, so their number is kept small; decimals stay
    // within what the XML Schema validator can represent; names are names and ids are ids.
    bool ends( const std::string& s, const char* e ) { const size_t n = strlen( e ); return s.size() >= n && s.compare( s.size() - n, n, e ) == 0; }
    bool nmtoken( const std::string& s )
    {
        for( unsigned char ch : s ) if( !isalnum( ch ) && ch != '-' && ch != '_' && ch != '.' ) return false;
        return !s.empty() && ( isalpha( (unsigned char)s[0] ) || s[0] == '_' );
    }
    struct Tame
    {
        int names = 0;
        template <class X> void leaf( const std::string& path, X& x )
        {
            if constexpr( std::is_same<X, int>::value ) { if( ( ends( path, "Dots" ) || ends( path, "dots" ) ) && x > 100 ) x = 100; }
            else if constexpr( std::is_floating_point<X>::value ) { if( !( x <= X( 1e15 ) ) ) x = X( 1e15 ); else if( x < X( -1e15 ) ) x = X( -1e15 ); }
            else if constexpr( std::is_same<X, std::string>::value )
            {
                if( ( ends( path, "elementName" ) || ends( path, "attributeName" ) ) && !( ends( path, "attributeName" ) && x.empty() ) && !nmtoken( x ) ) x = "n" + std::to_string( ++names );
                if( path.find( "fontFamily[" ) != std::string::npos || ( path.find( "miscData[" ) != std::string::npos && path.back() == ']' ) )
                {
                    for( char& ch : x ) if( ch == ',' ) ch = ';';
                    if( x.find_first_not_of( " \t\r\n" ) == std::string::npos ) x = "f" + std::to_string( ++names );
                }
                if( path.find( "miscData[" ) != std::string::npos && ends( path, ".name" ) && ( !nmtoken( x ) || x.size() == 3 ) ) x = "p" + std::to_string( ++names );
                if( ends( path, "uniqueId" ) ) x = "U" + std::to_string( ++names );
            }
        }
        template <class X> void size( const std::string&, X& ) {}
    };
    void smallVectors( ScoreData& s )
    {
        Tame f;
        refl::walk( f, s );
        if( s.parts.size() > 6 ) s.parts.resize( 6 );
    }

    // structures filled at random
    void filled( pbt::Tape& t, pbt::Ctx& c )
    {
        gen::Opts o;
        o.wild = t.chance( 2, 3 );
        o.simpleText = t.chance( 1, 3 );
        o.density = t.pick<int>( { 5, 15, 30, 60 } );
        o.vec = t.pick<double>( { 0.5, 1.0, 1.4 } );
        o.budget = 1500;
        ScoreData s;
        gen::fill( t, s, o );
        smallVectors( s );
        size_t set = 0;
        for( auto& e : refl::flatten( s ) ) if( !e.second.empty() && e.second != "0" && e.second != "\"\"" && e.second != "false" && e.second != "#0" ) ++set;
        check( c, s );
        if( set > 20 ) c.nontrivial( refl::showScore( s ) );
    }
    struct Change
    {
        pbt::Tape& t;
        const gen::Opts& o;
        size_t index, seen = 0;
        template <class X> void leaf( const std::string&, X& x ) { if( seen++ == index ) gen::randomLeaf( t, x, o ); }
        template <class X> void size( const std::string&, X& x )
        {
            if( seen++ != index ) return;
            gen::Filler f{ t, o };
            f.o.budget = 60;
            if constexpr( refl::IsVec<X>::value )
            {
                auto v = gen::make<typename X::value_type>();
                f.any( v );
                if( x.empty() || t.coin() ) x.insert( x.begin() + t.below( (uint32_t)x.size() + 1 ), v );
                else x.erase( x.begin() + t.below( (uint32_t)x.size() ) );
            }
            else if constexpr( refl::IsMap<X>::value )
            {
                auto v = gen::make<typename X::mapped_type>();
                f.any( v );
                if( x.empty() || t.coin() ) x.emplace( gen::randomInt( t, true ), v ); else x.erase( x.begin() );
            }
            else if( x ) x.reset();
            else
            {
                x = gen::make<typename X::value_type>();
                f.any( *x );
            }
        }
    };
    // ordinary scores with a few places changed to anything
    void changed( pbt::Tape& t, pbt::Ctx& c )
    {
        score::Opts so;
        so.attachments = so.directions = so.measures = so.header = t.pick<int>( { 5, 20, 40 } );
        so.maxMeasures = 3;
        ScoreData s = score::generate( t, so );
        gen::Opts o;
        o.wild = true;
        o.simpleText = false;
        for( int n = t.range( 1, 6 ); n > 0; --n )
        {
            const size_t places = gen::places( s );
            Change ch{ t, o, t.below( (uint32_t)places ) };
            refl::walk( ch, s );
        }
        smallVectors( s );
        check( c, s );
        c.nontrivial( refl::showScore( s ) );
    }
    PBT_PROPERTY( pbt::Property{ "A10", "filled", "more than 20 fields are set; distinct by the data", filled, 4000, 60000 } );
    PBT_PROPERTY( pbt::Property{ "A10", "changed", "an ordinary score with up to six changed places; distinct by the data", changed, 2000, 60000 } );
}
