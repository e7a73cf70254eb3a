// C01: schema-valid MusicXML survives reading and writing
#include "common/mxio.h"
#include "common/pbt.h"
#include "common/xml.h"
#include <algorithm>
#include <cstring>
#include <functional>
#include <set>
#include <sstream>

using namespace pbt;
using namespace xml;

namespace
{
    void walkCoverage( const Node& n, const CType* c, Ctx& ctx )
    {
        std::string key = n.name;
        for( auto& a : n.attrs ) ctx.nontrivial( n.name + "/@" + a.first + ( c && c->attr( a.first ) && !c->attr( a.first )->type->enums.empty() ? "=" + a.second : "" ) );
        std::string sig = n.name + ":";
        for( auto& k : n.kids )
        {
            sig += k.name + " ";
            walkCoverage( k, childType( c, k.name ), ctx );
        }
        ctx.nontrivial( sig );
        if( c && c->simple && !c->simple->enums.empty() ) ctx.nontrivial( n.name + "=" + n.text );
    }

    std::string firstLine( const std::string& s ) { return s.substr( 0, s.find( '\n' ) ); }

    // a stable class for a schema error message: drop quoted values
    std::string errClass( const std::string& m )
    {
        std::string l = firstLine( m ), o;
        auto p = l.find( "Element '" );
        if( p == std::string::npos ) return "other";
        p += 9;
        o = l.substr( p, l.find( '\'', p ) - p );
        auto a = l.find( "attribute '" );
        if( a != std::string::npos )
        {
            a += 11;
            o += "/@" + l.substr( a, l.find( '\'', a ) - a );
        }
        for( char& c : o ) if( c == ' ' ) c = '-';
        return o;
    }

    // input classes the document model can not represent: everything that goes wrong below such a
    // node is one finding, and is kept apart from anything else that goes wrong
    std::string modelLimit( const Node& n )
    {
        std::map<std::string, int> k;
        for( auto& c : n.kids ) ++k[c.name];
        if( n.name == "dynamics" && n.kids.size() != 1 ) return n.kids.empty() ? "dynamics-empty" : "dynamics-several";
        if( n.name == "interchangeable" && k["beats"] > 1 ) return "interchangeable-several-pairs";
        if( n.name == "sound" && k["offset"] ) return "sound-offset";
        if( n.name == "sound" && ( k["midi-device"] > 1 || k["midi-instrument"] > 1 || k["play"] > 1 ) ) return "sound-several-midi-groups";
        if( n.name == "sound" && n.kids.size() > 1 )
        {
            int last = 0;
            for( auto& c : n.kids )
            {
                int o = c.name == "midi-device" ? 0 : c.name == "midi-instrument" ? 1 : 2;
                if( o < last ) return "sound-several-midi-groups";
                last = o;
            }
        }
        if( n.name == "metronome" )
        {
            int after = 0;
            bool rel = false;
            for( auto& c : n.kids )
            {
                if( c.name == "metronome-relation" ) rel = true;
                else if( rel && c.name == "metronome-note" ) ++after;
            }
            if( after > 1 ) return "metronome-several-notes-after-relation";
        }
        if( n.name == "ornaments" )
        {
            bool seen = false;
            for( auto& c : n.kids )
            {
                if( c.name == "accidental-mark" ) seen = true;
                else if( seen ) return "ornaments-accidental-mark-not-last";
            }
        }
        if( n.name == "play" && n.kids.size() != 1 ) return n.kids.empty() ? "play-empty" : "play-several";
        if( n.name == "key" && !k["fifths"] && !k["key-step"] ) return "key-without-fifths-or-steps";
        if( ( n.name == "slash" || n.name == "beat-repeat" ) && !k["slash-type"] ) return n.name + "-without-slash-type";
        if( n.name == "page-layout" && !k["page-height"] ) return "page-layout-without-size";
        return {};
    }
    void limitsIn( const Node& n, std::set<std::string>& out )
    {
        const std::string l = modelLimit( n );
        if( !l.empty() ) out.insert( l );
        for( auto& k : n.kids ) limitsIn( k, out );
    }
    void collapseLimits( Node& e, Node& a, Ctx& c )
    {
        const std::string l = modelLimit( e );
        if( !l.empty() && e.name == a.name )
        {
            const std::string se = serialize( e, false ), sa = serialize( a, false );
            Node de, da;
            std::vector<Diff> diffs;
            std::string ne, na;
            std::function<void( const Node&, std::string& )> names = [&]( const Node& n, std::string& o ) {
                o += n.name + "(";
                for( auto& k : n.kids ) names( k, o );
                o += ")" + ( n.kids.empty() ? n.text : std::string() );
            };
            names( e, ne );
            names( a, na );
            if( ne != na ) c.fail( "limit:" + l, se + "\nbecame\n" + sa );
            e.kids.clear();
            a.kids.clear();
            e.text.clear();
            a.text.clear();
            e.attrs.clear();
            a.attrs.clear();
            return;
        }
        if( e.kids.size() != a.kids.size() ) return;
        for( size_t i = 0; i < e.kids.size(); ++i ) collapseLimits( e.kids[i], a.kids[i], c );
    }

    // the library's messages mix remarks about harmless things with the reason of a rejection
    std::string rejectionClass( const std::string& msg )
    {
        std::stringstream ss( msg );
        std::string line, first;
        while( std::getline( ss, line ) )
        {
            if( first.empty() ) first = line;
            if( line.find( "is required but was not found" ) != std::string::npos ) continue;
            if( line.compare( 0, 9, "Encoding:" ) == 0 ) continue;
            if( !line.empty() ) return line;
        }
        return first;
    }

    void roundTrip( Node doc, const std::string& text, Ctx& c, bool generated )
    {
        mx::core::DocumentPtr d;
        std::string msg;
        if( !mxio::load( text, d, msg ) )
        {
            std::string cls = rejectionClass( msg );
            std::string w;
            auto cut = cls.find( " the value '" );
            if( cut == std::string::npos ) cut = cls.find( "the value" );
            if( cut != std::string::npos ) cls.resize( cut );
            for( char ch : cls ) w += isalnum( (unsigned char)ch ) || ch == ':' ? ch : '-';
            for( auto& l : std::vector<std::string>{ "dynamics-empty" } )
            {
                std::set<std::string> limits;
                limitsIn( doc, limits );
                if( limits.count( l ) && msg.find( "Dynamics: parsing failed" ) != std::string::npos )
                {
                    c.fail( "limit:" + l, msg.substr( 0, 1000 ) + text.substr( 0, 3000 ) );
                    return;
                }
            }
            c.fail( "rejected:" + w.substr( 0, 80 ), "a schema-valid document was rejected: " + msg.substr( 0, 1000 ) + "\n" + text.substr( 0, 3000 ) );
            return;
        }
        const std::string out = mxio::save( *d );
        ParseResult r = parse( out );
        if( !r.ok )
        {
            c.fail( "output-not-well-formed", r.error + "\n" + out.substr( 0, 3000 ) );
            return;
        }
        std::vector<Diff> diffs;
        Node written = r.root;
        collapseLimits( doc, written, c );
        compare( doc, written, diffs );
        for( auto& x : diffs ) c.fail( x.fingerprint, x.message );
        if( !r.undeclaredPrefixes.empty() ) c.fail( "undeclared-prefix", "the written document uses a namespace prefix it does not declare: " + r.undeclaredPrefixes[0] );
        // schema validity of the output (prefix declared first so that one defect is one report)
        std::string forSchema = out;
        if( !r.undeclaredPrefixes.empty() )
        {
            auto p = forSchema.find( "<score-" );
            p = forSchema.find_first_of( " >", p );
            forSchema.insert( p, " xmlns:xlink=\"http://www.w3.org/1999/xlink\"" );
        }
        const std::string v = generated ? validate( forSchema ) : std::string();
        if( !v.empty() && diffs.empty() ) c.fail( "output-invalid:" + errClass( v ), v.substr( 0, 1000 ) );
        // second pass changes nothing
        mx::core::DocumentPtr d2;
        if( !mxio::load( out, d2, msg ) )
        {
            c.fail( "own-output-rejected", msg.substr( 0, 1000 ) );
            return;
        }
        const std::string out2 = mxio::save( *d2 );
        if( out2 != out ) c.fail( "second-pass-differs", "writing, reading and writing again changed the text" );
        // direct stream output of the model agrees with the XML layer's output
        std::ostringstream ds;
        d->toStream( ds );
        ParseResult rs = parse( ds.str() );
        if( !rs.ok ) c.fail( "toStream-not-well-formed", rs.error );
        else
        {
            std::vector<Diff> dd;
            compare( r.root, rs.root, dd );
            for( auto& x : dd ) c.fail( "toStream-" + x.fingerprint, x.message );
        }
    }

    // content the library rejects outright (known findings) would hide the rest of the document
    void soften( Node& n, Tape& t )
    {
        if( n.name == "instrument-sound" && !t.chance( 1, 20 ) )
            n.text = t.pick<const char*>( { "keyboard.piano", "strings.violin", "brass.trumpet", "wind.flutes.flute", "drum.snare-drum", "metal.triangle", "voice.alto", "pluck.guitar", "wood.wood-block", "effect.bird" } );
        if( n.name == "dynamics" && n.kids.empty() && !t.chance( 1, 20 ) )
        {
            Node k;
            k.name = t.pick<const char*>( { "p", "f", "mf", "sfz", "pp" } );
            n.kids.push_back( k );
        }
        for( auto& k : n.kids ) soften( k, t );
    }

    void schemaDocs( Tape& t, Ctx& c )
    {
        const auto& els = grammar().elements;
        GenOptions o;
        const auto& target = els[c.caseIndex % els.size()];
        o.targetName = target.first;
        o.target = target.second;
        switch( t.below( 4 ) )
        {
            case 0: o.density = 0.02; o.targetDensity = 0.4; break;
            case 1: o.density = 0.05; o.targetDensity = 0.9; break;
            case 2: o.density = 0.1; o.targetDensity = 0.6; o.maxRepeat = 5; break;
            default: o.density = 0.25; o.targetDensity = 0.5; o.maxNodes = 150; break;
        }
        Node doc = genDocument( t, o );
        soften( doc, t );
        const std::string text = serializeNoisy( doc, t );
        c.input( text );
        const std::string v = validate( text );
        if( !v.empty() )
        {
            // the generator must be sound: never judge the library on an invalid document
            c.tag( "generator produced an invalid document (discarded): " + firstLine( v ) );
            throw Discard{};
        }
        walkCoverage( doc, typeOfRoot( doc.name ), c );
        c.tag( doc.name );
        c.tag( "elements", doc.count() );
        roundTrip( doc, text, c, true );
    }

    PBT_PROPERTY( { "C01", "schema-documents",
        "a case is a schema-valid document grown towards one of the schema's element types (all are visited in turn); distinct = different (element, attribute, enumerated value) and (element, child sequence) combinations that were written, re-read and compared",
        schemaDocs, 12000, 400000 } );
}
