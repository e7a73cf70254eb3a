// A01-A05: score data survives creating a document from it and extracting it again
#include "common/score.h"
#include <cstdio>
using namespace mx::api;

namespace
{
    bool startsWith( const std::string& s, const char* p ) { return s.rfind( p, 0 ) == 0; }
    // which property a field belongs to
    std::string owner( const std::string& field )
    {
        if( field.find( "noteAttachmentData" ) != std::string::npos ) return "A04";
        if( field.find( ".directions" ) != std::string::npos ) return "A02";
        if( field.find( ".voices" ) != std::string::npos ) return "A01";
        if( startsWith( field, "layout" ) || field.find( "transposition" ) != std::string::npos ) return "A05";
        if( field == "parts#" || field == "parts.measures#" || field == "parts.measures.staves#" || field == "ticksPerQuarter" ) return "A01";
        if( startsWith( field, "parts.measures" ) ) return "A05";
        return "A03";
    }

    // the kind of the mark a difference is about ("" for other differences)
    std::string markKind( const ScoreData& s, const std::string& path )
    {
        int p, m, st, v, n, k;
        if( std::sscanf( path.c_str(), "parts[%d].measures[%d].staves[%d].voices{%d}.notes[%d].noteAttachmentData.marks[%d]", &p, &m, &st, &v, &n, &k ) != 6 ) return "";
        const auto& voices = s.parts.at( p ).measures.at( m ).staves.at( st ).voices;
        const auto i = voices.find( v );
        if( i == voices.end() || n >= (int)i->second.notes.size() || k >= (int)i->second.notes[n].noteAttachmentData.marks.size() ) return "";
        return "mark " + std::to_string( (int)i->second.notes[n].noteAttachmentData.marks[k].markType ) + " ";
    }

    void check( pbt::Tape& t, pbt::Ctx& c, const char* id, score::Opts o )
    {
        ScoreData s = score::generate( t, o );
        const auto w = (score::Way)t.below( 4 );
        s.musicXmlType = w == score::Way::timewise ? "timewise" : "partwise";
        if( w == score::Way::timewise ) // a timewise measure has one number, width and implicit flag for all parts
            for( auto& p : s.parts )
                for( size_t m = 0; m < p.measures.size(); ++m )
                {
                    auto& first = s.parts[0].measures[m];
                    p.measures[m].number = first.number, p.measures[m].width = first.width, p.measures[m].implicit = first.implicit;
                }
        std::string x;
        c.tag( score::wayName( w ) );
        ScoreData r;
        c.input( refl::showScore( s ) );
        try
        {
            r = score::trip( s, w, x );
        }
        catch( const std::exception& e )
        {
            c.fail( std::string( "exception: " ) + e.what(), std::string( "a supported score is not carried: " ) + e.what() );
            return;
        }
        c.evaluations( 1 );
        {
            std::string key;
            size_t set = 0;
            for( auto& e : refl::flatten( s ) )
                if( owner( refl::fieldOf( e.first ) ) == id )
                {
                    const std::string& v = e.second;
                    if( v.empty() || v == "\"\"" || v == "0" || v == "#0" || v == "false" || v == "-1" ) continue;
                    ++set;
                    key += refl::fieldOf( e.first ) + "=" + v + ";";
                }
            if( set >= 5 ) c.nontrivial( key );
        }
        c.input( refl::showScore( s ) + "\n" + x );
        size_t mine = 0;
        for( auto& d : refl::differences( s, r ) )
        {
            const std::string f = d.field();
            if( owner( f ) != id ) continue;
            // an accidental mark or fermata gets its name from its type
            if( f == "parts.measures.staves.voices.notes.noteAttachmentData.marks.name" && d.left == "\"\"" ) continue;
            c.fail( markKind( s, d.path ) + f, std::string( "(" ) + score::wayName( w ) + ") " + d.path + ": gave " + d.left + ", came back as " + d.right + "\n" );
            if( ++mine > 40 ) break;
        }
    }
    void a01( pbt::Tape& t, pbt::Ctx& c ) { score::Opts o; o.notes = 70; check( t, c, "A01", o ); }
    void a02( pbt::Tape& t, pbt::Ctx& c ) { score::Opts o; o.notes = 15; o.directions = 60; check( t, c, "A02", o ); }
    void a03( pbt::Tape& t, pbt::Ctx& c ) { score::Opts o; o.notes = 10; o.header = 60; o.maxMeasures = 2; check( t, c, "A03", o ); }
    void a04( pbt::Tape& t, pbt::Ctx& c ) { score::Opts o; o.notes = 20; o.attachments = 60; check( t, c, "A04", o ); }
    void a05( pbt::Tape& t, pbt::Ctx& c ) { score::Opts o; o.notes = 10; o.measures = 60; o.maxMeasures = 6; check( t, c, "A05", o ); }
    // the transposition belongs to the part, whether or not the part has measures yet
    void bare( pbt::Tape& t, pbt::Ctx& c )
    {
        ScoreData s;
        s.musicXmlType = "partwise";
        const int parts = t.range( 1, 5 );
        std::string key;
        for( int i = 0; i < parts; ++i )
        {
            s.parts.emplace_back();
            auto& p = s.parts.back();
            p.uniqueId = "P" + std::to_string( i + 1 );
            p.name = "part " + std::to_string( i + 1 );
            if( t.chance( 4, 5 ) ) p.transposition = TransposeData{ t.range( -40, 40 ), t.range( -24, 24 ) };
            if( p.transposition && !p.transposition->isUsed() ) p.transposition.reset();
            for( int m = t.range( 0, 2 ); m > 0; --m )
            {
                p.measures.emplace_back();
                p.measures.back().staves.resize( t.range( 1, 2 ) );
            }
            for( auto& m : p.measures ) m.staves.resize( p.measures[0].staves.size() );
            key += std::to_string( p.measures.size() ) + ( p.transposition ? "t" + std::to_string( p.transposition->chromatic ) + "," + std::to_string( p.transposition->diatonic ) : "" ) + ";";
        }
        if( key.find( 't' ) != std::string::npos ) c.nontrivial( key );
        c.input( refl::showScore( s ) );
        for( int w = 0; w < 3; ++w )
        {
            std::string x;
            ScoreData r;
            try
            {
                r = score::trip( s, (score::Way)w, x );
            }
            catch( const std::exception& e )
            {
                c.fail( std::string( "bare exception: " ) + e.what(), std::string( "not carried: " ) + e.what() );
                return;
            }
            c.evaluations( 1 );
            if( r.parts.size() != s.parts.size() )
            {
                c.fail( "bare parts#", "gave " + std::to_string( s.parts.size() ) + " parts, came back " + std::to_string( r.parts.size() ) + "\n" + x );
                return;
            }
            for( size_t i = 0; i < s.parts.size(); ++i )
            {
                auto &a = s.parts[i].transposition, &b = r.parts[i].transposition;
                auto shown = []( const std::optional<TransposeData>& o ) { return o ? std::to_string( o->chromatic ) + "/" + std::to_string( o->diatonic ) : std::string( "none" ); };
                if( shown( a ) != shown( b ) ) c.fail( std::string( "bare transposition" ) + ( s.parts[i].measures.empty() ? " (no measures)" : "" ), "part " + std::to_string( i ) + ": gave " + shown( a ) + ", came back as " + shown( b ) + "\n" + x );
            }
        }
    }
    PBT_PROPERTY( pbt::Property{ "A05", "bare", "a part has a transposition", bare, 1500, 40000 } );
    PBT_PROPERTY( pbt::Property{ "A01", "scores", "at least five note, voice and duration values are set (not empty, zero, false or -1); distinct by those values", a01, 3000, 40000 } );
    PBT_PROPERTY( pbt::Property{ "A02", "scores", "at least five direction values are set (not empty, zero, false or -1); distinct by those values", a02, 3000, 40000 } );
    PBT_PROPERTY( pbt::Property{ "A03", "scores", "at least five header, part and layout-default values are set (not empty, zero, false or -1); distinct by those values", a03, 4000, 40000 } );
    PBT_PROPERTY( pbt::Property{ "A04", "scores", "at least five note attachment values are set (not empty, zero, false or -1); distinct by those values", a04, 1800, 40000 } );
    PBT_PROPERTY( pbt::Property{ "A05", "scores", "at least five measure and layout values are set (not empty, zero, false or -1); distinct by those values", a05, 3000, 40000 } );
}
