// The public interface of the core element classes, type-erased. The tables (c02_tab*.cpp) are
// written by tools/gen_c02.py from the class declarations.
#pragma once
#include "mx/core/AttributesInterface.h"
#include "mx/core/ElementInterface.h"
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace c02
{
    using E = mx::core::ElementInterface;
    using EPtr = std::shared_ptr<E>;
    using A = mx::core::AttributesInterface;
    using APtr = std::shared_ptr<A>;

    struct Slot
    {
        std::string name;
        enum Kind { one, optional, set } kind;
        int min = 0, max = -1;
        EPtr ( *make )() = nullptr;
        EPtr ( *get )( E& ) = nullptr;
        void ( *put )( E&, const EPtr& ) = nullptr;
        bool ( *getHas )( E& ) = nullptr;
        void ( *setHas )( E&, bool ) = nullptr;
        std::vector<EPtr> ( *all )( E& ) = nullptr;
        void ( *add )( E&, const EPtr& ) = nullptr;
        void ( *removeAt )( E&, size_t ) = nullptr; // the size means end()
        void ( *clear )( E& ) = nullptr;
        EPtr ( *at )( E&, size_t ) = nullptr;
    };
    struct Flag
    {
        std::string name;
        bool& ( *has )( A& );
    };
    struct Class
    {
        std::string name;
        EPtr ( *make )() = nullptr;
        std::vector<Slot> slots;
        std::vector<std::pair<std::string, int>> choices;
        int ( *getChoice )( E& ) = nullptr;
        void ( *setChoice )( E&, int ) = nullptr;
        APtr ( *makeAttributes )() = nullptr;
        APtr ( *getAttributes )( E& ) = nullptr;
        void ( *setAttributes )( E&, const APtr& ) = nullptr;
        std::vector<Flag> flags;               // optional attributes
        std::vector<std::string> always;       // the others
    };
    const std::vector<Class>& classes();

    template <class P, auto G> EPtr getF( E& e ) { return ( static_cast<P&>( e ).*G )(); }
    template <class P, class C, auto S> void putF( E& e, const EPtr& v ) { ( static_cast<P&>( e ).*S )( std::dynamic_pointer_cast<C>( v ) ); }
    template <class P, auto G> bool hasF( E& e ) { return ( static_cast<P&>( e ).*G )(); }
    template <class P, auto S> void setHasF( E& e, bool b ) { ( static_cast<P&>( e ).*S )( b ); }
    template <class P, auto G> std::vector<EPtr> allF( E& e )
    {
        const auto& s = ( static_cast<P&>( e ).*G )();
        return std::vector<EPtr>( s.begin(), s.end() );
    }
    template <class P, auto G, auto R> void removeF( E& e, size_t i ) { ( static_cast<P&>( e ).*R )( ( static_cast<P&>( e ).*G )().cbegin() + (long)i ); }
    template <class P, auto C> void clearF( E& e ) { ( static_cast<P&>( e ).*C )(); }
    template <class P, auto G, auto T> EPtr atF( E& e, size_t i ) { return ( static_cast<P&>( e ).*T )( ( static_cast<P&>( e ).*G )().cbegin() + (long)i ); }
    template <class P, auto G> int getChoiceF( E& e ) { return (int)( static_cast<P&>( e ).*G )(); }
    template <class P, class V, auto S> void setChoiceF( E& e, int v ) { ( static_cast<P&>( e ).*S )( (V)v ); }
    template <class P, auto G> APtr attributesF( E& e ) { return ( static_cast<P&>( e ).*G )(); }
    template <class P, class T, auto S> void setAttributesF( E& e, const APtr& v ) { ( static_cast<P&>( e ).*S )( std::dynamic_pointer_cast<T>( v ) ); }
    template <class T> APtr makeAttributesF() { return std::make_shared<T>(); }
    template <class T, bool T::*F> bool& flagF( A& a ) { return static_cast<T&>( a ).*F; }

#define CLASS( P ) { Class c; c.name = #P; c.make = []() -> EPtr { return make##P(); };
#define END v.push_back( std::move( c ) ); }
#define ONE_( P, C, N, S ) { Slot s; s.name = #N; s.kind = Slot::one; s.make = []() -> EPtr { return make##C(); }; s.get = &getF<P, &P::get##N>; s.put = &putF<P, C, &P::S>; c.slots.push_back( s ); }
#define ONE( P, C, N ) ONE_( P, C, N, set##N )
#define OPT( P, C, N ) { Slot s; s.name = #N; s.kind = Slot::optional; s.make = []() -> EPtr { return make##C(); }; s.get = &getF<P, &P::get##N>; s.put = &putF<P, C, &P::set##N>; s.getHas = &hasF<P, &P::getHas##N>; s.setHas = &setHasF<P, &P::setHas##N>; c.slots.push_back( s ); }
#define SET( P, C, N, LO, HI ) { Slot s; s.name = #N; s.kind = Slot::set; s.min = LO; s.max = HI; s.make = []() -> EPtr { return make##C(); }; s.all = &allF<P, &P::get##N##Set>; s.add = &putF<P, C, &P::add##N>; s.removeAt = &removeF<P, &P::get##N##Set, &P::remove##N>; s.clear = &clearF<P, &P::clear##N##Set>; c.slots.push_back( s ); }
#define AT( P, N ) c.slots.back().at = &atF<P, &P::get##N##Set, &P::get##N>;
#define HAS( P, N ) c.slots.back().getHas = &hasF<P, &P::getHas##N>; c.slots.back().setHas = &setHasF<P, &P::setHas##N>;
#define CHOICE( P, T ) c.getChoice = &getChoiceF<P, &P::getChoice>; c.setChoice = &setChoiceF<P, T, &P::setChoice>;
#define PICK( T, V ) c.choices.emplace_back( #V, (int)T::V );
#define ATTRIBUTES( P, T ) c.makeAttributes = &makeAttributesF<T>; c.getAttributes = &attributesF<P, &P::getAttributes>; c.setAttributes = &setAttributesF<P, T, &P::setAttributes>;
#define OWNATTRIBUTES( P, T ) c.getAttributes = &attributesF<P, &P::getAttributes>;
#define FLAG( T, N ) c.flags.push_back( Flag{ #N, &flagF<T, &T::has##N> } );
#define ALWAYS( N ) c.always.push_back( #N );
}
