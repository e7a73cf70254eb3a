// thin helpers over the library's own entry points
#pragma once
#include "ezxml/ezxml.h"
#include "mx/core/Document.h"
#include <sstream>
#include <string>

namespace mxio
{
    // reads text into a document; false + message when the library reports failure
    inline bool load( const std::string& text, mx::core::DocumentPtr& doc, std::string& message )
    {
        try
        {
            auto x = ::ezxml::XFactory::makeXDoc();
            std::istringstream is( text );
            x->loadStream( is );
            doc = mx::core::makeDocument();
            std::stringstream ms;
            if( !doc->fromXDoc( ms, *x ) )
            {
                message = ms.str();
                return false;
            }
            return true;
        }
        catch( const std::exception& e )
        {
            message = std::string( "exception: " ) + e.what();
            return false;
        }
    }
    inline std::string save( const mx::core::Document& doc )
    {
        auto x = ::ezxml::XFactory::makeXDoc();
        doc.toXDoc( *x );
        std::ostringstream os;
        x->saveStream( os );
        return os.str();
    }
}
