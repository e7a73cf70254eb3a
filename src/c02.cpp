// C02: element classes keep their documented container contract under every sequence of calls
#include "c02.h"
#include "common/pbt.h"
#include "common/xml.h"
#include <algorithm>
#include <map>
#include <sstream>
#include <typeindex>

using namespace pbt;

namespace c02
{
    void table0( std::vector<Class>& );
    void table1( std::vector<Class>& );
    void table2( std::vector<Class>& );
    void table3( std::vector<Class>& );
    void table4( std::vector<Class>& );
    void table5( std::vector<Class>& );
    void table6( std::vector<Class>& );
    void table7( std::vector<Class>& );
    const std::vector<Class>& classes()
    {
        static const std::vector<Class> all = []
        {
            std::vector<Class> v;
            table0( v ); table1( v ); table2( v ); table3( v ); table4( v ); table5( v ); table6( v ); table7( v );
            std::sort( v.begin(), v.end(), []( const Class& a, const Class& b ) { return a.name < b.name; } );
            return v;
        }();
        return all;
    }
}

using namespace c02;

namespace
{
    std::string squeeze( const std::string& s )
    {
        std::string r;
        for( char c : s ) if( std::isalnum( (unsigned char)c ) ) r += (char)std::tolower( (unsigned char)c );
        return r;
    }
    const Class* classOf( const E& e )
    {
        static const std::map<std::type_index, const Class*> m = []
        {
            std::map<std::type_index, const Class*> r;
            for( auto& c : classes() ) r[std::type_index( typeid( *c.make() ) )] = &c;
            return r;
        }();
        const auto it = m.find( std::type_index( typeid( e ) ) );
        return it == m.end() ? nullptr : it->second;
    }
    // which value of the choice makes the slot appear; -1: independent of the choice
    int enumeratorOf( const Class& c, const Slot& s )
    {
        const auto n = squeeze( s.name );
        size_t best = 0;
        int r = -1;
        for( auto& p : c.choices )
        {
            const auto q = squeeze( p.first );
            if( q == n ) return p.second;
            if( n.compare( 0, q.size(), q ) == 0 && q.size() > best ) { best = q.size(); r = p.second; }
        }
        return r;
    }
    // no element of its own: its parent writes its contents
    bool isGroup( const E& e )
    {
        if( e.getElementName().empty() ) return true;
        const auto* c = classOf( e );
        return c && ( c->name == "ArticulationsChoice" || c->name == "EncodingChoice" || c->name == "LayoutGroup"
                      || c->name == "NoteheadTextChoice" || c->name == "TechnicalChoice" );
    }
    void trim( xml::Node& n )
    {
        if( n.text.find_first_not_of( " \t\r\n" ) == std::string::npos ) n.text.clear();
        for( auto& k : n.kids ) trim( k );
    }
    std::string text( const E& e )
    {
        std::ostringstream os;
        bool oneLine = false;
        if( isGroup( e ) ) e.streamContents( os, 0, oneLine );
        else e.toStream( os, 0 );
        return os.str();
    }

    struct State
    {
        std::vector<EPtr> ones;
        std::vector<bool> has;
        std::vector<std::vector<EPtr>> sets;
        int choice = 0;
        APtr attributes;
        std::vector<bool> flags;
    };
    State read( const Class& c, E& e )
    {
        State s;
        for( auto& x : c.slots )
        {
            s.ones.push_back( x.get ? x.get( e ) : nullptr );
            s.has.push_back( x.getHas ? x.getHas( e ) : true );
            s.sets.push_back( x.all ? x.all( e ) : std::vector<EPtr>{} );
        }
        if( c.getChoice ) s.choice = c.getChoice( e );
        if( c.getAttributes ) s.attributes = c.getAttributes( e );
        if( s.attributes ) for( auto& f : c.flags ) s.flags.push_back( f.has( *s.attributes ) );
        return s;
    }

    // one random call; the model follows by the documented rule. Returns what was called.
    std::string step( Tape& t, const Class& c, E& e, State& m, int depth );

    EPtr fresh( Tape& t, const Slot& s, int depth )
    {
        auto p = s.make();
        const auto* c = classOf( *p );
        if( c && depth < 3 )
        {
            auto m = read( *c, *p );
            while( t.more( depth == 1 ? 2.0 : 1.0 ) ) step( t, *c, *p, m, depth + 1 );
        }
        return p;
    }

    std::string step( Tape& t, const Class& c, E& e, State& m, int depth )
    {
        enum { slot, choice, attrs };
        std::vector<int> kinds;
        if( !c.slots.empty() ) { kinds.push_back( slot ); kinds.push_back( slot ); kinds.push_back( slot ); kinds.push_back( slot ); }
        if( c.setChoice && !c.choices.empty() ) kinds.push_back( choice );
        if( c.getAttributes ) kinds.push_back( attrs );
        if( kinds.empty() ) return "";
        const int k = t.pick( kinds );
        if( k == choice )
        {
            const auto& p = t.pick( c.choices );
            c.setChoice( e, p.second );
            m.choice = p.second;
            return "setChoice(" + p.first + ")";
        }
        if( k == attrs )
        {
            const auto w = t.weighted( { 6, 1, 1 } );
            if( w == 1 && c.setAttributes ) { c.setAttributes( e, nullptr ); return "setAttributes(null)"; }
            if( w == 2 && c.setAttributes )
            {
                auto a = c.makeAttributes();
                c.setAttributes( e, a );
                m.attributes = a;
                m.flags.clear();
                for( auto& f : c.flags ) m.flags.push_back( f.has( *a ) );
                return "setAttributes(new)";
            }
            auto a = c.getAttributes( e );
            if( !a || c.flags.empty() ) return "";
            const size_t i = t.below( (uint32_t)c.flags.size() );
            const bool b = !c.flags[i].has( *a );
            c.flags[i].has( *a ) = b;
            if( i < m.flags.size() ) m.flags[i] = b;
            return "has" + c.flags[i].name + "=" + ( b ? "true" : "false" );
        }
        const size_t i = t.below( (uint32_t)c.slots.size() );
        const auto& s = c.slots[i];
        if( s.setHas && t.chance( 2, 5 ) )
        {
            const bool b = t.chance( 3, 4 );
            s.setHas( e, b );
            m.has[i] = b;
            return "setHas" + s.name + ( b ? "(true)" : "(false)" );
        }
        if( s.kind != Slot::set )
        {
            if( t.chance( 1, 5 ) ) { s.put( e, nullptr ); return "set" + s.name + "(null)"; }
            auto p = fresh( t, s, depth );
            s.put( e, p );
            m.ones[i] = p;
            return "set" + s.name + "(new)";
        }
        auto& set = m.sets[i];
        switch( t.weighted( { 8, 1, 3, 1, 2 } ) )
        {
            default:
            {
                auto p = fresh( t, s, depth );
                s.add( e, p );
                if( s.max < 0 || (int)set.size() < s.max ) set.push_back( p );
                return "add" + s.name + "(new)";
            }
            case 1: s.add( e, nullptr ); return "add" + s.name + "(null)";
            case 2:
                if( !set.empty() && set.size() == s.all( e ).size() )
                {
                    const size_t j = t.below( (uint32_t)set.size() );
                    s.removeAt( e, j );
                    if( (int)set.size() > s.min ) set.erase( set.begin() + (long)j );
                    return "remove" + s.name + "(" + std::to_string( j ) + ")";
                }
                [[fallthrough]];
            case 3:
                s.removeAt( e, s.all( e ).size() );
                return "remove" + s.name + "(end)";
            case 4:
                s.clear( e );
                if( s.min == 0 ) set.clear();
                else set = s.all( e ); // which elements stay is open, how many is checked
                return "clear" + s.name + "Set()";
        }
    }

    std::string check( const Class& c, E& e, const State& m, const std::string& op, bool cleared )
    {
        const auto now = read( c, e );
        for( size_t i = 0; i < c.slots.size(); ++i )
        {
            const auto& s = c.slots[i];
            if( s.kind != Slot::set && !now.ones[i] ) return s.name + " is null";
            if( s.kind != Slot::set && now.ones[i] != m.ones[i] ) return s.name + " is not the element that was set";
            if( s.getHas && now.has[i] != m.has[i] ) return "getHas" + s.name + " changed";
            if( s.kind != Slot::set ) continue;
            const auto& v = now.sets[i];
            if( (int)v.size() < s.min && !m.sets[i].empty() ) return s.name + " has fewer elements than its minOccurs";
            if( s.max >= 0 && (int)v.size() > s.max ) return s.name + " has more elements than its maxOccurs";
            if( cleared && op == "clear" + s.name + "Set()" && (int)v.size() != s.min ) return s.name + " is not cleared to its minimum";
            if( v != m.sets[i] ) return s.name + "'s elements are not the expected ones";
            for( auto& p : v ) if( !p ) return s.name + " holds a null element";
            if( s.at )
            {
                for( size_t j = 0; j < v.size(); ++j ) if( s.at( e, j ) != v[j] ) return "get" + s.name + "(iterator) gives another element";
                if( s.at( e, v.size() ) ) return "get" + s.name + "(end) gives an element";
            }
        }
        if( c.getChoice && now.choice != m.choice ) return "choice changed";
        if( c.getAttributes && !now.attributes ) return "attributes are null";
        if( now.attributes != m.attributes ) return "attributes are not the ones that were set";
        if( now.flags != m.flags ) return "attribute flags changed";
        return "";
    }

    std::string kidText( xml::Node n )
    {
        trim( n );
        return xml::serialize( n, false );
    }
    bool parseKids( const std::string& s, std::vector<std::string>& out, std::string& err )
    {
        auto r = xml::parse( "<r>" + s + "</r>" );
        if( !r.ok ) { err = r.error; return false; }
        for( auto& k : r.root.kids ) out.push_back( kidText( k ) );
        return true;
    }

    std::string output( const Class& c, E& e, const State& m )
    {
        std::vector<std::string> want, got;
        std::vector<std::pair<std::string, std::vector<std::string>>> ordered;
        std::string err;
        for( size_t i = 0; i < c.slots.size(); ++i )
        {
            const auto& s = c.slots[i];
            if( s.getHas && !m.has[i] ) continue;
            const int on = c.getChoice ? enumeratorOf( c, s ) : -1;
            if( on >= 0 && on != m.choice ) continue;
            std::vector<EPtr> v = s.kind == Slot::set ? m.sets[i] : std::vector<EPtr>{ m.ones[i] };
            std::vector<std::string> mine;
            for( auto& p : v ) if( p && !parseKids( text( *p ), mine, err ) ) return s.name + " does not parse: " + err;
            want.insert( want.end(), mine.begin(), mine.end() );
            if( s.kind == Slot::set ) ordered.emplace_back( s.name, mine );
        }
        const auto t = text( e );
        auto r = xml::parse( "<r>" + t + "</r>" );
        if( !r.ok ) return "output does not parse: " + r.error;
        xml::Node self = r.root;
        if( !isGroup( e ) )
        {
            if( r.root.kids.size() != 1 ) return "output is not one element";
            self = r.root.kids[0];
            if( self.name != e.getElementName() ) return "output has another name";
        }
        if( !c.slots.empty() )
        {
            for( auto& k : self.kids ) got.push_back( kidText( k ) );
            auto a = want, b = got;
            std::sort( a.begin(), a.end() );
            std::sort( b.begin(), b.end() );
            std::vector<std::string> missing, extra;
            std::set_difference( a.begin(), a.end(), b.begin(), b.end(), std::back_inserter( missing ) );
            std::set_difference( b.begin(), b.end(), a.begin(), a.end(), std::back_inserter( extra ) );
            if( !missing.empty() ) return "not written: " + missing[0];
            if( !extra.empty() ) return "written though not active: " + extra[0];
            for( auto& o : ordered )
            {
                size_t j = 0;
                for( auto& g : got ) if( j < o.second.size() && g == o.second[j] ) ++j;
                if( j < o.second.size() ) return o.first + "'s elements are written in another order";
            }
        }
        if( c.getAttributes && !isGroup( e ) )
        {
            std::vector<std::string> w, g;
            for( size_t i = 0; i < c.flags.size(); ++i ) if( m.flags[i] ) w.push_back( squeeze( c.flags[i].name ) );
            for( auto& x : c.always ) w.push_back( squeeze( x ) );
            for( auto& x : self.attrs )
            {
                const auto full = squeeze( x.first );
                const auto part = squeeze( x.first.substr( x.first.find( ':' ) == std::string::npos ? 0 : x.first.find( ':' ) + 1 ) );
                auto it = std::find( w.begin(), w.end(), full );
                if( it == w.end() ) it = std::find( w.begin(), w.end(), part );
                if( it == w.end() ) return "attribute written though not set: " + x.first;
                w.erase( it );
            }
            if( !w.empty() ) return "attribute not written: " + w[0];
        }
        return "";
    }

    void run( Tape& t, Ctx& x )
    {
        const auto& c = classes()[x.caseIndex % classes().size()];
        auto e = c.make();
        auto m = read( c, *e );
        std::string log = c.name + ":";
        // a new object
        {
            auto f = c.make();
            const auto n = read( c, *f );
            for( size_t i = 0; i < c.slots.size(); ++i )
                if( c.slots[i].kind != Slot::set && m.ones[i] && m.ones[i] == n.ones[i] )
                    x.fail( "shared:" + c.name + "." + c.slots[i].name, "two new " + c.name + " share one " + c.slots[i].name );
            if( m.attributes && m.attributes == n.attributes ) x.fail( "shared:" + c.name + ".attributes", "two new " + c.name + " share their attributes" );
            for( size_t i = 0; i < m.flags.size(); ++i )
                if( m.flags[i] ) x.tag( "initially on: " + c.name + "." + c.flags[i].name );
        }
        auto report = [&]( const std::string& what, const std::string& op )
        {
            std::string key = what.substr( 0, what.find( ": " ) );
            const auto lt = what.find( '<' );
            if( lt != std::string::npos ) key += " " + what.substr( lt, what.find_first_of( " />\n", lt + 1 ) - lt );
            else if( what.find( "attribute" ) == 0 ) key = what;
            std::string fp = c.name + ":" + op + ":" + key;
            for( char& ch : fp ) if( ch == ' ' ) ch = '-';
            x.fail( fp, c.name + " after " + log + "\n" + what + "\noutput: " + text( *e ) );
        };
        auto w = check( c, *e, m, "", false );
        if( w.empty() ) w = output( c, *e, m );
        if( !w.empty() ) { x.input( log + " (new)" ); report( w, "new" ); return; }
        size_t n = 0;
        while( n < 40 && t.more( 8 ) )
        {
            const auto op = step( t, c, *e, m, 1 );
            if( op.empty() ) break;
            ++n;
            log += " " + op;
            w = check( c, *e, m, op, true );
            if( !w.empty() ) { x.input( log ); report( w, op.substr( 0, op.find( '(' ) ) ); return; }
            w = output( c, *e, m );
            if( !w.empty() ) { x.input( log ); report( w, "output" ); return; }
        }
        x.input( log );
        x.tag( "calls", n );
        x.tag( "class " + std::to_string( c.slots.size() + c.flags.size() > 0 ) );
        if( n >= 3 ) x.nontrivial( log );
    }

    PBT_PROPERTY( Property{ "C02", "containers", "a sequence of at least three public calls on one element object", run, 416 * 25, 416 * 600 } );
}
