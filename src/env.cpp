// R03: work on documents leaves no memory behind.  R04: documents do not depend on the process's locale.
#include "common/docs.h"
#include "common/score.h"
#include "mx/api/DocumentManager.h"
#include <algorithm>
#include <cstdio>
#include <locale>
#include <sstream>
#include <unistd.h>
#if defined( __has_feature )
#if __has_feature( address_sanitizer )
#include <sanitizer/allocator_interface.h>
#define LIVE_BYTES() __sanitizer_get_current_allocated_bytes()
#endif
#endif
#ifndef LIVE_BYTES
#include <malloc.h>
#define LIVE_BYTES() mallinfo2().uordblks
#endif
using namespace mx::api;
using xml::Node;

namespace
{
    // ---- a document or score as input ----------------------------------------------------------
    struct Input { std::string text; bool isScore = false; ScoreData data; };
    void damage( pbt::Tape& t, std::string& s )
    {
        const int n = t.range( 1, 3 );
        for( int i = 0; i < n && !s.empty(); ++i )
        {
            const size_t at = t.below( (uint32_t)s.size() );
            switch( t.below( 3 ) )
            {
                case 0: s.resize( at ); break;
                case 1: s[at] = (char)t.below( 256 ); break;
                default: s.erase( at, t.below( 40 ) ); break;
            }
        }
    }
    Input input( pbt::Tape& t, pbt::Ctx& c, bool broken )
    {
        Input in;
        switch( t.weighted( { 4, 3, 2, broken ? 3u : 0u } ) )
        {
            case 0: in.text = xml::serialize( docs::fromSchema( t, c, 200 ) ); break;
            case 1:
                in.isScore = true;
                c.tag( "score" );
                {
                    score::Opts o;
                    o.directions = 30, o.attachments = 30, o.measures = 30, o.header = 30;
                    in.data = score::generate( t, o );
                    in.data.musicXmlType = t.coin() ? "timewise" : "partwise";
                }
                break;
            case 2: in.text = docs::sample( t, c, 30000 ); break;
            default:
                c.tag( "damaged" );
                if( t.coin() )
                {
                    in.text = t.coin() ? docs::sample( t, c, 20000 ) : xml::serialize( docs::fromSchema( t, c, 100 ) );
                    damage( t, in.text );
                }
                else
                {
                    Node n = docs::fromSchema( t, c, 100 );
                    docs::mutate( t, n, t.range( 1, 5 ) );
                    in.text = xml::serialize( n );
                }
                break;
        }
        return in;
    }
    std::string shown( const Input& in ) { return in.isScore ? refl::showScore( in.data ) : in.text; }

    // ---- R03 -----------------------------------------------------------------------------------
    // everything one can do with a document, ending with its destruction; false: something was refused
    bool useDocument( const Input& in, bool failingStream, bool file, const std::string& path )
    {
        auto& dm = DocumentManager::getInstance();
        bool ok = true;
        int id = -1;
        try
        {
            if( in.isScore ) id = dm.createFromScore( in.data );
            else if( file )
            {
                FILE* f = fopen( path.c_str(), "wb" );
                if( f ) { fwrite( in.text.data(), 1, in.text.size(), f ); fclose( f ); }
                id = dm.createFromFile( path );
            }
            else
            {
                std::istringstream is( in.text );
                if( failingStream ) is.setstate( std::ios::badbit );
                id = dm.createFromStream( is );
            }
        }
        catch( const std::exception& ) { return false; }
        try
        {
            const auto s = dm.getData( id );
            const int other = dm.createFromScore( s );
            try
            {
                std::ostringstream os;
                dm.writeToStream( other, os );
            }
            catch( const std::exception& ) { ok = false; }
            dm.destroyDocument( other );
        }
        catch( const std::exception& ) { ok = false; }
        try
        {
            std::ostringstream os;
            dm.writeToStream( id, os );
            if( file ) dm.writeToFile( id, path );
            else if( failingStream )
            {
                std::ostringstream bad;
                bad.setstate( std::ios::badbit );
                dm.writeToStream( id, bad );
            }
        }
        catch( const std::exception& ) { ok = false; }
        dm.destroyDocument( id );
        return ok;
    }

    void r03( pbt::Tape& t, pbt::Ctx& c )
    {
        const Input in = input( t, c, true );
        const bool failing = t.chance( 1, 8 ), file = t.chance( 1, 4 );
        c.input( shown( in ) );
        const std::string path = "/tmp/r03." + std::to_string( getpid() ) + ".xml";
        // what is remembered once (tables, buffers) is not a leak; what grows each time is
        bool ok = useDocument( in, failing, file, path );
        ok = useDocument( in, failing, file, path ) && ok;
        long long live[4];
        for( auto& l : live )
        {
            useDocument( in, failing, file, path );
            l = (long long)LIVE_BYTES();
        }
        unlink( path.c_str() );
        c.tag( ok ? "accepted throughout" : "refused somewhere" );
        c.tag( file ? "file" : "stream" );
        c.nontrivial( in.isScore ? shown( in ) : in.text );
        c.evaluations( 6 );
        if( live[1] > live[0] && live[2] > live[1] && live[3] > live[2] )
            c.fail( ok ? "growth" : "growth-after-refusal", "the memory in use grows each time this document is used and destroyed: " + std::to_string( live[1] - live[0] ) + ", " + std::to_string( live[2] - live[1] ) + ", " + std::to_string( live[3] - live[2] ) + " bytes\n" );
    }

    // ---- R04 -----------------------------------------------------------------------------------
    struct Punctuation : std::numpunct<char>
    {
        char point, separator;
        std::string groups;
        Punctuation( char p, char s, const char* g ) : point( p ), separator( s ), groups( g ) {}
        char do_decimal_point() const override { return point; }
        char do_thousands_sep() const override { return separator; }
        std::string do_grouping() const override { return groups; }
        std::string do_truename() const override { return "wahr"; }
        std::string do_falsename() const override { return "falsch"; }
    };
    struct Foreign
    {
        std::locale before;
        Foreign( int kind )
        : before( std::locale::global( std::locale( std::locale::classic(), kind == 0 ? new Punctuation( ',', '.', "\3" ) : kind == 1 ? new Punctuation( '.', ',', "\3\2" ) : kind == 2 ? new Punctuation( ',', ' ', "\3" ) : new Punctuation( '\'', '.', "\2" ) ) ) )
        {}
        ~Foreign() { std::locale::global( before ); }
    };
    struct Outcome { std::string refused, text, extraction, again; ScoreData data; };
    // what comes of a document or score
    void run( const Input& in, Outcome& o )
    {
        auto& dm = DocumentManager::getInstance();
        int id = -1;
        try
        {
            if( in.isScore ) id = dm.createFromScore( in.data );
            else
            {
                std::istringstream is( in.text );
                id = dm.createFromStream( is );
            }
            std::ostringstream os;
            dm.writeToStream( id, os );
            o.text = os.str();
        }
        catch( const std::exception& e ) { o.refused = std::string( "refused: " ) + e.what(); }
        if( id < 0 ) return;
        try
        {
            o.data = dm.getData( id );
        }
        catch( const std::exception& ) { o.extraction = "refused"; }
        try
        {
            if( o.extraction.empty() && !in.isScore )
            {
                const int other = dm.createFromScore( o.data );
                std::ostringstream os;
                dm.writeToStream( other, os );
                o.again = os.str();
                dm.destroyDocument( other );
            }
        }
        catch( const std::exception& ) { o.again = "refused"; }
        dm.destroyDocument( id );
    }
    // identifiers made up by the library count on from one document to the next
    std::string plainIds( std::string s )
    {
        for( size_t i = 0; ( i = s.find( "\"ID1", i ) ) != std::string::npos; ++i )
        {
            size_t e = i + 3;
            while( e < s.size() && isdigit( (unsigned char)s[e] ) ) ++e;
            if( e - i >= 10 && s[e] == '"' ) s.replace( i + 3, e - i - 3, "n" );
        }
        return s;
    }
    // the first line in which two texts differ
    void lines( const std::string& what, const std::string& before, const std::string& after, pbt::Ctx& c )
    {
        const std::string a = plainIds( before ), b = plainIds( after );
        if( a == b ) return;
        std::istringstream x( a ), y( b );
        std::string l, m;
        for( ;; )
        {
            const bool p = (bool)std::getline( x, l ), q = (bool)std::getline( y, m );
            if( !p ) l = "(nothing)";
            if( !q ) m = "(nothing)";
            if( l != m || !p || !q ) break;
        }
        const size_t open = l.find( '<' ), end = l.find_first_of( " >/", open == std::string::npos ? 0 : open + 1 );
        c.fail( what + ":" + ( open == std::string::npos ? std::string( "text" ) : l.substr( open + 1, end - open - 1 ) ), what + " depends on the locale:\n    classic: " + l + "\n    other:   " + m + "\n" );
    }
    void r04( pbt::Tape& t, pbt::Ctx& c )
    {
        const Input in = input( t, c, false );
        const int kind = (int)t.below( 4 );
        c.input( shown( in ) );
        Outcome a, b;
        run( in, a );
        {
            Foreign f( kind );
            run( in, b );
        }
        c.tag( a.refused.empty() ? "accepted" : "refused" );
        c.tag( kind == 0 ? "1.234,5" : kind == 1 ? "1,23,456.7" : kind == 2 ? "1 234,5" : "12.34'5" );
        size_t numbers = 0;
        for( size_t i = 1; i < a.text.size(); ++i ) numbers += isdigit( (unsigned char)a.text[i] ) && ( a.text[i - 1] == '.' || ( i > 2 && isdigit( (unsigned char)a.text[i - 1] ) && isdigit( (unsigned char)a.text[i - 2] ) && isdigit( (unsigned char)a.text[i - 3] ) ) );
        if( numbers ) c.nontrivial( a.text );
        if( a.refused != b.refused )
        {
            c.fail( "acceptance", "classic: " + ( a.refused.empty() ? "accepted" : a.refused ) + "\nother: " + ( b.refused.empty() ? "accepted" : b.refused ) + "\n" );
            return;
        }
        lines( "written", a.text, b.text, c );
        if( a.extraction != b.extraction ) c.fail( "extraction", "score data is extracted under one locale only\n" );
        else
            for( auto& d : refl::differences( a.data, b.data ) )
            {
                c.fail( "data:" + d.field(), d.path + " is " + d.left + ", under the other locale " + d.right + "\n" );
                break;
            }
        lines( "created", a.again, b.again, c );
    }

    PBT_PROPERTY( pbt::Property{ "R03", "memory", "every document counts; distinct by its text", r03, 1500, 60000, 60 } );
    PBT_PROPERTY( pbt::Property{ "R04", "locale", "the written document has a decimal point or a number of at least four digits", r04, 3000, 80000, 60 } );
}
