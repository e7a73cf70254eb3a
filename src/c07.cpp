// C07: text content is carried literally whatever characters it contains
#include "common/mxio.h"
#include "common/pbt.h"
#include "common/xml.h"
#include <algorithm>
#include <functional>
#include <set>
#include <sstream>

using namespace pbt;
using namespace xml;

namespace
{
    // 0: not free text, 1: white space kept, 2: white space collapsed, 3: comma separated text
    int freeText( const SType* s )
    {
        if( !s || !s->enums.empty() || !s->members.empty() || s->numeric() ) return 0;
        if( s->name == "comma-separated-text" ) return 3;
        if( !s->pattern.empty() ) return 0;
        auto is = [&]( const char* n ) { return s->base == n || s->base == std::string( "xs:" ) + n; };
        if( is( "string" ) || is( "normalizedString" ) ) return 1;
        if( is( "token" ) ) return 2;
        if( is( "anyURI" ) ) return 2;
        return 0;
    }
    struct Slot
    {
        std::string field, marker, text;
        int kind = 0;
    };
    // the number of a marker as it appears in written text, -1 if the text is no marker
    int slotOf( const std::string& v )
    {
        if( v.size() < 5 || v.compare( 0, 2, "Qz" ) != 0 || v.compare( v.size() - 2, 2, "zQ" ) != 0 ) return -1;
        for( size_t i = 2; i + 2 < v.size(); ++i ) if( !isdigit( (unsigned char)v[i] ) ) return -1;
        return atoi( v.c_str() + 2 );
    }
    std::string collapse( const std::string& s )
    {
        std::string o;
        bool gap = false;
        for( char ch : s )
        {
            if( ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' ) { gap = true; continue; }
            if( gap && !o.empty() ) o += ' ';
            gap = false;
            o += ch;
        }
        return o;
    }
    // text which looks like mark-up of some kind and is to be carried as the characters it is
    std::string lookalike( Tape& t )
    {
        switch( t.below( 5 ) )
        {
            case 0: return "&#" + std::to_string( t.pick<int>( { 65, 38, 60, 10, 13, 233, 8212, 119070, 0, 55296 } ) ) + ( t.chance( 1, 8 ) ? "" : ";" );
            case 1: return "&#x" + std::string( t.pick<const char*>( { "41", "26", "3C", "3e", "A", "d", "E9", "2014", "1F600", "0", "D800" } ) ) + ( t.chance( 1, 8 ) ? "" : ";" );
            case 2: return "&" + std::string( t.pick<const char*>( { "amp", "lt", "gt", "quot", "apos", "nbsp", "eacute", "a", "amp;lt" } ) ) + ( t.chance( 1, 8 ) ? "" : ";" );
            case 3: return t.pick<const char*>( { "<?xml?>", "<?a b?>", "<!DOCTYPE a>", "<a>", "</a>", "<a b=\"c\"/>", "<!--x-->", "<![CDATA[x]]>", "]]&gt;", "--" } );
            default: return t.pick<const char*>( { "\\n", "\\u0041", "%41", "%26amp%3B", "${a}", "&&", "&;", "&#;", "&#x;", "=''" } );
        }
    }
    std::string richText( Tape& t, int kind, bool attr )
    {
        std::string s = genText( t, false );
        if( t.chance( 1, 3 ) )
        {
            const std::string l = lookalike( t );
            s = t.coin() ? s + l : l + s;
            if( t.chance( 1, 3 ) ) s += lookalike( t );
        }
        if( kind == 3 )
        {
            s.erase( std::remove( s.begin(), s.end(), ',' ), s.end() );
            s = collapse( s );
            if( s.empty() ) s = "&";
            return s;
        }
        if( kind == 1 && !attr )
        {
            // white space is content here
            if( t.chance( 1, 6 ) ) s += t.pick<const char*>( { " ", "\n", "\t", "  " } ) + genText( t, true );
            if( t.chance( 1, 10 ) ) s = t.pick<const char*>( { " ", "\n", "\t" } ) + s;
            if( t.chance( 1, 10 ) ) s += t.pick<const char*>( { " ", "\n", "\t" } );
        }
        if( collapse( s ).empty() ) s = "<";
        if( kind == 1 && !attr && t.chance( 1, 20 ) ) s = t.pick<const char*>( { " ", "  ", "\n", "\t" } );
        return s;
    }
    void place( Tape& t, Node& a, Node& b, const CType* c, std::vector<Slot>& slots, bool& changed )
    {
        if( c )
        {
            for( size_t i = 0; i < a.attrs.size(); ++i )
            {
                const Attr* at = c->attr( a.attrs[i].first );
                const int k = at && at->fixed.empty() && a.attrs[i].first != "xml:lang" ? freeText( at->type ) : 0;
                if( !k ) continue;
                Slot s{ a.name + "/@" + a.attrs[i].first, "Qz" + std::to_string( slots.size() ) + "zQ", richText( t, k, true ), k };
                a.attrs[i].second = s.marker;
                b.attrs[i].second = s.text;
                slots.push_back( s );
            }
            const int k = a.kids.empty() && a.name != "instrument-sound" ? freeText( c->simple ) : 0;
            if( k )
            {
                Slot s{ a.name, "Qz" + std::to_string( slots.size() ) + "zQ", richText( t, k, false ), k };
                a.text = s.marker;
                b.text = s.text;
                slots.push_back( s );
            }
        }
        for( size_t i = 0; i < a.kids.size(); ++i ) place( t, a.kids[i], b.kids[i], c ? childType( c, a.kids[i].name ) : nullptr, slots, changed );
    }
    void checkText( Ctx& c, const std::vector<Slot>& slots, const std::string& m, const std::string& v, const std::string& where, const std::string& how )
    {
        const int i = slotOf( m );
        if( i < 0 || i >= (int)slots.size() )
        {
            if( m != v ) c.fail( how + "other-text-changed:" + where, where + ": \"" + m + "\" became \"" + v + "\" when only other texts changed" );
            return;
        }
        const Slot& s = slots[i];
        const bool attr = s.field.find( '@' ) != std::string::npos;
        const std::string want = s.kind == 1 && !attr ? s.text : collapse( s.text ), got = s.kind == 1 && !attr ? v : collapse( v );
        if( want == got ) { c.nontrivial( s.field + "=" + s.text ); return; }
        std::string cls = "text-changed:";
        if( collapse( want ) == collapse( got ) ) cls = "white-space-changed:";
        if( collapse( want ).empty() && got.empty() )
        {
            c.fail( how + "blank-text-lost", s.field + ": text consisting of white space only is lost" );
            return;
        }
        c.fail( how + cls + s.field, s.field + ": the text \"" + want + "\" became \"" + got + "\"" );
    }
    void same( Ctx& c, const std::vector<Slot>& slots, const Node& m, const Node& v, const std::string& how )
    {
        if( m.name != v.name || m.kids.size() != v.kids.size() || m.attrs.size() != v.attrs.size() )
        {
            c.fail( how + "structure-changed:" + m.name, "the text of a field changed the structure of the written document:\n" + serialize( m, false ).substr( 0, 1500 ) + "\nbecame\n" + serialize( v, false ).substr( 0, 1500 ) );
            return;
        }
        for( size_t i = 0; i < m.attrs.size(); ++i )
        {
            if( m.attrs[i].first != v.attrs[i].first ) { c.fail( how + "structure-changed:" + m.name, "attribute " + m.attrs[i].first + " became " + v.attrs[i].first ); return; }
            checkText( c, slots, m.attrs[i].second, v.attrs[i].second, m.name + "/@" + m.attrs[i].first, how );
        }
        if( m.kids.empty() ) checkText( c, slots, m.text, v.text, m.name, how );
        for( size_t i = 0; i < m.kids.size(); ++i ) same( c, slots, m.kids[i], v.kids[i], how );
    }
    void soften( Node& n )
    {
        if( n.name == "instrument-sound" ) n.text = "keyboard.piano";
        if( n.name == "dynamics" && n.kids.empty() ) { Node k; k.name = "mf"; n.kids.push_back( k ); }
        for( auto& k : n.kids ) soften( k );
    }

    void documents( Tape& t, Ctx& c )
    {
        const auto& els = grammar().elements;
        GenOptions o;
        const auto& target = els[c.caseIndex % els.size()];
        o.targetName = target.first;
        o.target = target.second;
        o.density = t.pick( { 0.02, 0.05, 0.2 } );
        o.targetDensity = 0.8;
        o.maxNodes = 120;
        Node plain = genDocument( t, o );
        soften( plain );
        Node rich = plain;
        std::vector<Slot> slots;
        bool changed = false;
        place( t, plain, rich, typeOfRoot( plain.name ), slots, changed );
        if( slots.empty() ) throw Discard{};
        const std::string tp = serialize( plain ), tr = serialize( rich );
        c.input( tr );
        ParseResult check = parse( tr );
        if( !check.ok ) { c.fail( "harness:not-well-formed", check.error ); return; }
        mx::core::DocumentPtr dp, dr;
        std::string mp, mr;
        const bool okp = mxio::load( tp, dp, mp ), okr = mxio::load( tr, dr, mr );
        if( !okp )
        {
            // some structures are rejected whatever the text is (C01)
            throw Discard{};
        }
        if( !okr ) { c.fail( "rejected", "a document is rejected because of its texts: " + mr.substr( 0, 500 ) ); return; }
        const std::string op = mxio::save( *dp ), orr = mxio::save( *dr );
        ParseResult p = parse( op ), r = parse( orr );
        if( !p.ok ) { c.fail( "not-well-formed-plain", p.error ); return; }
        if( !r.ok ) { c.fail( "not-well-formed", r.error + "\n" + orr.substr( 0, 2000 ) ); return; }
        same( c, slots, p.root, r.root, "" );
        std::ostringstream ds;
        dr->toStream( ds );
        ParseResult s = parse( ds.str() );
        if( !s.ok ) { c.fail( "stream-not-well-formed", s.error + "\n" + ds.str().substr( 0, 2000 ) ); return; }
        std::ostringstream dps;
        dp->toStream( dps );
        ParseResult sp = parse( dps.str() );
        if( sp.ok ) same( c, slots, sp.root, s.root, "stream-" );
    }
    PBT_PROPERTY( { "C07", "documents", "two schema-valid documents that differ only in the texts of their free-text elements and attributes: plain markers in one, text with mark-up, quotes and non-Latin characters in the other; distinct = (field, text) that came back", documents, 8000, 250000 } );
}
