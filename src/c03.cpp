// C03: conversion between the partwise and the timewise organisation.  The oracle transposes the
// tree of the written document; it knows nothing of the library's objects.
#include "common/docs.h"
#include "common/mxio.h"
#include "common/reflect.h"
#include "common/xml.h"
#include "mx/api/ScoreData.h"
#include "mx/core/ScoreConversions.h"
#include "mx/core/elements/ScorePartwise.h"
#include "mx/core/elements/ScoreTimewise.h"
#include "mx/impl/ScoreReader.h"
#include <algorithm>

using namespace mx;
using xml::Node;

namespace
{
    Node el( const std::string& name, const std::string& text = "" ) { Node n; n.name = name; n.text = text; return n; }

    using Cell = std::vector<Node>;
    struct Matrix
    {
        Node root;                              // name and attributes only
        std::vector<Node> header;
        std::vector<std::string> ids;           // of the parts
        std::vector<std::vector<std::pair<std::string, std::string>>> attrs; // of the measures
        std::vector<std::vector<Cell>> cells;   // [part][measure]
        std::vector<std::vector<char>> present; // [part][measure]
        std::vector<std::vector<int>> order;    // order of the parts in each measure (timewise)
        bool regular = true; // each part has its first so many measures, in the same order everywhere
        bool uniform = true; // parts agree on the attributes of a measure
    };

    // something to put into cells, from documents made by the schema
    void harvest( const Node& root, std::vector<Cell>& pool, std::vector<Node>& header )
    {
        header.clear();
        for( auto& k : root.kids )
        {
            if( k.name != "part" && k.name != "measure" ) { header.push_back( k ); continue; }
            for( auto& m : k.kids ) if( !m.kids.empty() ) pool.push_back( m.kids );
        }
    }
    Node marker( int number )
    {
        Node n = el( "note" );
        n.attrs.emplace_back( "default-x", std::to_string( number ) );
        n.kids.push_back( el( "rest" ) );
        n.kids.push_back( el( "duration", std::to_string( 1 + number % 50 ) ) );
        n.kids.push_back( el( "voice", std::to_string( number ) ) );
        return n;
    }
    Matrix matrix( pbt::Tape& t, pbt::Ctx& c, bool timewise )
    {
        Matrix m;
        std::vector<Cell> pool;
        const int rounds = t.range( 1, 2 );
        for( int i = 0; i < rounds; ++i ) harvest( docs::fromSchema( t, c, 150 ), pool, m.header );
        const bool large = t.chance( 1, 25 );
        const int parts = large ? t.range( 1, 40 ) : t.range( 1, 5 );
        const int measures = large ? t.range( 1, 60 ) : t.range( 1, 6 );
        m.root.attrs.clear();
        if( t.chance( 4, 5 ) ) m.root.attrs.emplace_back( "version", t.pick<const char*>( { "3.0", "2.0", "1.1", "x" } ) );
        // ids: the parts of the list, in an order of their own, or others
        std::vector<std::string> known;
        for( auto& h : m.header )
            if( h.name == "part-list" )
                for( auto& p : h.kids ) if( p.name == "score-part" ) if( auto id = p.attr( "id" ) ) known.push_back( *id );
        if( t.chance( 1, 2 ) )
        {
            // as in ordinary documents: a list of exactly these parts
            known.clear();
            for( auto& h : m.header )
                if( h.name == "part-list" )
                {
                    h.kids.clear();
                    for( int p = 0; p < parts; ++p )
                    {
                        Node s = el( "score-part" );
                        s.attrs.emplace_back( "id", "P" + std::to_string( p + 1 ) );
                        s.kids.push_back( el( "part-name", "n" + std::to_string( p + 1 ) ) );
                        h.kids.push_back( s );
                        known.push_back( "P" + std::to_string( p + 1 ) );
                    }
                }
        }
        while( (int)known.size() < parts ) known.push_back( "Q" + std::to_string( known.size() ) );
        m.ids = known;
        for( size_t i = m.ids.size(); i > 1; --i ) if( t.chance( 1, 3 ) ) std::swap( m.ids[i - 1], m.ids[t.below( (uint32_t)i )] );
        m.ids.resize( (size_t)parts );
        if( parts > 1 && t.chance( 1, 12 ) ) { m.ids.back() = m.ids.front(); m.regular = false; c.tag( "two parts with one id" ); }
        for( int k = 0; k < measures; ++k )
        {
            std::vector<std::pair<std::string, std::string>> a;
            a.emplace_back( "number", t.pick<std::string>( { std::to_string( k + 1 ), std::to_string( k ), "X1", "", "1", " 7", "a\"<&'" } ) );
            if( t.chance( 1, 5 ) ) a.emplace_back( "implicit", t.coin() ? "yes" : "no" );
            if( t.chance( 1, 8 ) ) a.emplace_back( "non-controlling", t.coin() ? "yes" : "no" );
            if( t.chance( 1, 5 ) ) a.emplace_back( "width", std::to_string( t.range( 1, 999 ) ) + ".25" );
            m.attrs.push_back( a );
        }
        int number = 0;
        m.cells.resize( parts );
        m.present.resize( parts );
        for( int p = 0; p < parts; ++p )
        {
            for( int k = 0; k < measures; ++k )
            {
                Cell cell;
                if( large || !t.chance( 1, 6 ) )
                {
                    cell.push_back( marker( ++number ) );
                    if( !large && !pool.empty() && t.chance( 1, 3 ) )
                        for( auto& n : pool[t.below( (uint32_t)pool.size() )] ) cell.push_back( n );
                }
                m.cells[p].push_back( cell );
            }
            m.present[p].assign( (size_t)measures, 1 );
        }
        // parts that end early
        if( parts > 1 && t.chance( 1, 3 ) )
        {
            c.tag( "ragged" );
            for( int p = 0; p < parts; ++p )
                if( t.coin() )
                    for( int k = t.range( 1, measures ); k < measures; ++k ) m.present[p][k] = 0;
            if( timewise )
                for( int k = 0; k < measures; ++k )
                {
                    bool any = false;
                    for( int p = 0; p < parts; ++p ) any = any || m.present[p][k];
                    if( !any ) m.present[0][k] = 1, m.regular = false;
                }
        }
        m.order.resize( (size_t)measures );
        for( int k = 0; k < measures; ++k ) for( int p = 0; p < parts; ++p ) m.order[k].push_back( p );
        if( timewise && parts > 1 && t.chance( 1, 4 ) )
        {
            // any part may be missing anywhere, and measures may order the parts differently
            m.regular = false;
            c.tag( "irregular" );
            for( int k = 0; k < measures; ++k )
            {
                for( int p = 1; p < parts; ++p ) if( t.chance( 1, 4 ) ) m.present[p][k] = 0;
                m.present[0][k] = 1;
                for( size_t i = (size_t)parts; i > 1; --i ) if( t.chance( 1, 3 ) ) std::swap( m.order[k][i - 1], m.order[k][t.below( (uint32_t)i )] );
            }
        }
        if( !timewise && parts > 1 && t.chance( 1, 10 ) ) { m.uniform = false; c.tag( "measures that differ between parts" ); }
        return m;
    }
    Node document( pbt::Tape& t, const Matrix& m, bool timewise )
    {
        Node root = m.root;
        root.name = timewise ? "score-timewise" : "score-partwise";
        root.attrs.emplace_back( "xmlns:xlink", "http://www.w3.org/1999/xlink" );
        root.kids = m.header;
        const size_t parts = m.cells.size(), measures = m.attrs.size();
        if( timewise )
            for( size_t k = 0; k < measures; ++k )
            {
                Node me = el( "measure" );
                me.attrs = m.attrs[k];
                for( int p : m.order[k] )
                    if( m.present[p][k] )
                    {
                        Node pa = el( "part" );
                        pa.attrs.emplace_back( "id", m.ids[p] );
                        pa.kids = m.cells[p][k];
                        me.kids.push_back( pa );
                    }
                root.kids.push_back( me );
            }
        else
            for( size_t p = 0; p < parts; ++p )
            {
                Node pa = el( "part" );
                pa.attrs.emplace_back( "id", m.ids[p] );
                for( size_t k = 0; k < measures && m.present[p][k]; ++k )
                {
                    Node me = el( "measure" );
                    me.attrs = m.attrs[k];
                    if( !m.uniform && p > 0 && t.chance( 1, 3 ) ) me.setAttr( "number", "D" + std::to_string( p ) );
                    me.kids = m.cells[p][k];
                    pa.kids.push_back( me );
                }
                root.kids.push_back( pa );
            }
        return root;
    }

    // ---------------------------------------------------------------- the oracle, on trees
    Node toTimewise( const Node& d )
    {
        Node r = d;
        r.name = "score-timewise";
        r.kids.clear();
        size_t measures = 0;
        for( auto& k : d.kids )
            if( k.name == "part" ) measures = std::max( measures, k.kids.size() );
            else r.kids.push_back( k );
        for( size_t i = 0; i < measures; ++i )
        {
            Node me = el( "measure" );
            for( auto& p : d.kids )
            {
                if( p.name != "part" || i >= p.kids.size() ) continue;
                me.attrs = p.kids[i].attrs;
                Node pa = el( "part" );
                pa.attrs = p.attrs;
                pa.kids = p.kids[i].kids;
                me.kids.push_back( pa );
            }
            r.kids.push_back( me );
        }
        return r;
    }
    Node toPartwise( const Node& d )
    {
        Node r = d;
        r.name = "score-partwise";
        r.kids.clear();
        std::vector<const Node*> measures;
        for( auto& k : d.kids )
            if( k.name == "measure" ) measures.push_back( &k );
            else r.kids.push_back( k );
        // a part is its id and how many parts with that id come before it in the measure
        std::vector<std::pair<std::string, int>> parts;
        std::map<std::pair<std::string, int>, size_t> last;
        const auto each = [&]( const std::function<void( size_t, const std::pair<std::string, int>&, const Node& )>& f )
        {
            for( size_t k = 0; k < measures.size(); ++k )
            {
                std::map<std::string, int> seen;
                for( auto& p : measures[k]->kids )
                {
                    const std::string id = p.attr( "id" ) ? *p.attr( "id" ) : "";
                    f( k, { id, seen[id]++ }, p );
                }
            }
        };
        each( [&]( size_t k, const std::pair<std::string, int>& key, const Node& )
        {
            if( !last.count( key ) ) parts.push_back( key );
            last[key] = k;
        } );
        for( auto& key : parts )
        {
            Node pa = el( "part" );
            pa.attrs.emplace_back( "id", key.first );
            for( size_t k = 0; k <= last[key]; ++k )
            {
                Node me = el( "measure" );
                me.attrs = measures[k]->attrs;
                each( [&]( size_t kk, const std::pair<std::string, int>& other, const Node& p ) { if( kk == k && other == key ) me.kids = p.kids; } );
                pa.kids.push_back( me );
            }
            r.kids.push_back( pa );
        }
        return r;
    }
    // where two trees first differ; empty when they do not
    std::string difference( const Node& a, const Node& b, const std::string& at, bool measureAttributes )
    {
        const std::string here = at + "/" + a.name;
        if( a.name != b.name ) return here + ": is " + b.name;
        if( ( measureAttributes || a.name != "measure" ) && a.attrs != b.attrs )
        {
            std::string m = here + ": attributes";
            for( auto& x : a.attrs ) m += " " + x.first + "=" + x.second;
            m += " became";
            for( auto& x : b.attrs ) m += " " + x.first + "=" + x.second;
            return m;
        }
        if( a.kids.empty() && b.kids.empty() && a.text != b.text ) return here + ": text " + a.text + " became " + b.text;
        for( size_t i = 0; i < a.kids.size() || i < b.kids.size(); ++i )
        {
            if( i >= a.kids.size() ) return here + ": has an additional " + b.kids[i].name + " at " + std::to_string( i );
            if( i >= b.kids.size() ) return here + ": has lost " + a.kids[i].name + " at " + std::to_string( i );
            auto d = difference( a.kids[i], b.kids[i], here + "[" + std::to_string( i ) + "]", measureAttributes );
            if( !d.empty() ) return d;
        }
        return "";
    }
    std::string label( const std::string& d ) // which kind of thing differs, without positions
    {
        const auto colon = d.find( ':' );
        const auto slash = d.rfind( '/', colon );
        std::string l = d.substr( slash + 1, colon - slash - 1 );
        const auto space = d.find( ' ', colon + 2 );
        l += "-" + d.substr( colon + 2, space == std::string::npos ? std::string::npos : space - colon - 2 );
        return l;
    }
    bool dataOf( const core::Document& d, api::ScoreData& out )
    {
        try
        {
            if( d.getChoice() == core::DocumentChoice::timewise )
            {
                const auto p = core::timewisePartwise( d.getScoreTimewise() );
                out = impl::ScoreReader( *p ).getScoreData();
            }
            else out = impl::ScoreReader( *d.getScorePartwise() ).getScoreData();
            return true;
        }
        catch( const std::exception& ) { return false; }
    }
    void check( pbt::Tape& t, pbt::Ctx& c )
    {
        const bool timewise = t.coin();
        const Matrix m = matrix( t, c, timewise );
        const Node tree = document( t, m, timewise );
        const std::string text = xml::serialize( tree );
        c.input( text );
        core::DocumentPtr doc;
        std::string message;
        if( !mxio::load( text, doc, message ) ) throw pbt::Discard{}; // judged by C01
        const std::string before = mxio::save( *doc );
        const auto A = xml::parse( before );
        if( !A.ok ) throw pbt::Discard{};
        api::ScoreData dataBefore;
        const bool haveData = t.chance( 1, 3 ) && dataOf( *doc, dataBefore );

        // the functions leave their argument alone
        if( timewise ) core::timewisePartwise( doc->getScoreTimewise() );
        else core::partwiseTimewise( doc->getScorePartwise() );
        if( mxio::save( *doc ) != before ) c.fail( "argument-changed", "converting a score has changed the score that was converted" );

        doc->convertContents();
        if( doc->getChoice() != ( timewise ? core::DocumentChoice::partwise : core::DocumentChoice::timewise ) ) c.fail( "choice", "the document's choice does not tell its new organisation" );
        const std::string middle = mxio::save( *doc );
        const auto B = xml::parse( middle );
        if( !B.ok ) { c.fail( "not-well-formed", B.error ); return; }
        const Node want = timewise ? toPartwise( A.root ) : toTimewise( A.root );
        auto d = difference( want, B.root, "", m.uniform );
        if( !d.empty() ) c.fail( std::string( timewise ? "to-partwise-" : "to-timewise-" ) + label( d ), d );
        if( haveData && m.uniform )
        {
            api::ScoreData dataAfter;
            if( !dataOf( *doc, dataAfter ) ) c.fail( "data-throws", "the data can be extracted before the conversion and not after it" );
            else if( m.regular )
            {
                dataBefore.musicXmlType = dataAfter.musicXmlType = "";
                const auto diff = refl::differences( dataBefore, dataAfter );
                if( !diff.empty() ) c.fail( "data-differs", "the data extracted after the conversion differs at " + diff[0].path + ": " + diff[0].left + " / " + diff[0].right );
            }
        }
        // and back
        doc->convertContents();
        const std::string after = mxio::save( *doc );
        if( m.regular && m.uniform )
        {
            if( after != before )
            {
                const auto C = xml::parse( after );
                d = C.ok ? difference( A.root, C.root, "", true ) : C.error;
                c.fail( "twice-" + ( C.ok && !d.empty() ? label( d ) : std::string( "text" ) ), "converting twice does not give the document back: " + d );
            }
        }
        else
        {
            const auto C = xml::parse( after );
            const Node again = timewise ? toTimewise( B.root ) : toPartwise( B.root );
            d = C.ok ? difference( again, C.root, "", m.uniform ) : C.error;
            if( !d.empty() ) c.fail( "back-" + ( C.ok ? label( d ) : std::string( "text" ) ), d );
            // from then on nothing changes any more
            doc->convertContents();
            const std::string third = mxio::save( *doc );
            doc->convertContents();
            if( mxio::save( *doc ) != after ) c.fail( "not-settled", "after one conversion and back, further ones still change the document" );
        }
        c.tag( timewise ? "from timewise" : "from partwise" );
        c.tag( "cells", m.cells.size() * m.attrs.size() );
        if( m.cells.size() >= 2 && m.attrs.size() >= 2 ) c.nontrivial( text );
    }
    PBT_PROPERTY( pbt::Property{ "C03", "matrix", "two or more parts and two or more measures; distinct by document", check, 4000, 150000 } );
}
