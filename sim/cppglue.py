"""C++ glue (Ops, Builder, Arch) for one schema, compiled together with the code generated from it."""
from .model import CPP


def struct_ops(schema, s):
    ns = schema.ns.replace(".", "::")
    T = "%s::%s" % (ns, s.name)
    o = ["template<> struct Ops< %s > {" % T,
         "  using M = %s::MutatorType; using A = %s::AccessorType;" % (T, T)]
    o.append("  static void setf( M m, int f, uint64_t v, int mode ) { (void)mode; switch( f ) {")
    for i, f in enumerate(s.fields):
        if f.enum:
            rhs = "static_cast< %s::%s >( static_cast< %s >( v ) )" % (ns, f.enum, CPP[f.type])
            st = "m.%s = %s;" % (f.name, rhs)
        elif f.type == "bool":
            st = "m.%s = ( v & 1 ) != 0;" % f.name
        elif f.optional:
            st = ("if ( mode == 0 ) m.%(n)s = static_cast< %(t)s >( v ); "
                  "else if ( static_cast< %(t)s >( v ) == static_cast< %(t)s >( %(c)s ) ) m.%(n)s = boost::optional< %(t)s >( ); "
                  "else m.%(n)s = boost::optional< %(t)s >( static_cast< %(t)s >( v ) );"
                  % {"n": f.name, "t": CPP[f.type], "c": "%s::%s" % (ns, f.optional)})
        else:
            st = "m.%s = static_cast< %s >( v );" % (f.name, CPP[f.type])
        o.append("    case %d: { %s break; }" % (i, st))
    o.append("  } }")
    o.append("  static void set( M m, const uint64_t* v ) { for ( int i = 0; i < %d; i++ ) setf( m, i, v[ i ], i & 1 ); }" % len(s.fields))

    def getter(name, cls, rng):
        g = ["  static int %s( %s a, uint64_t* o ) { int k = 0;" % (name, cls)]
        for f in s.fields:
            t = CPP[f.type]
            if f.enum:
                g.append("    { %s::%s x = a.%s; o[ k++ ] = static_cast< uint64_t >( static_cast< int64_t >( static_cast< %s >( x ) ) ); }"
                         % (ns, f.enum, f.name, t))
            elif f.optional:
                g.append("    { %(t)s x = *a.%(n)s; boost::optional< %(t)s > q = a.%(n)s; bool none = x == static_cast< %(t)s >( %(c)s );"
                         " bool good = none ? ( !q && !a.%(n)s ) : ( q && *q == x && static_cast< bool >( a.%(n)s ) );"
                         " o[ k++ ] = good ? static_cast< uint64_t >( static_cast< int64_t >( x ) ) : 0xBADBADBADBADull; }"
                         % {"t": t, "n": f.name, "c": "%s::%s" % (ns, f.optional)})
            elif f.signed:
                g.append("    { %s x = a.%s; o[ k++ ] = static_cast< uint64_t >( static_cast< int64_t >( x ) ); }" % (t, f.name))
            else:
                g.append("    { %s x = a.%s; o[ k++ ] = static_cast< uint64_t >( x ); }" % (t, f.name))
            if f.range and rng:
                g.append("    { std::pair< uint64_t, uint64_t > p = a.%s; o[ k++ ] = p.first; o[ k++ ] = p.second; }" % f.range)
        g.append("    return k; }")
        return g
    o += getter("get", "A", True)
    o += getter("getm", "M", False)
    o.append("};")
    return "\n".join(o)


def archive_glue(schema, a):
    ns = schema.ns.replace(".", "::")
    T = "%s::%s" % (ns, a.name)
    B = T + "Builder"
    o = []
    o.append("struct B_%s : Builder {" % a.name)
    o.append("  std::unique_ptr< %s > own; %s* b;" % (B, B))
    o.append("  explicit B_%s( std::shared_ptr< flatdata::ResourceStorage > s ) : own( new %s( %s::open( s ) ) ), b( own.get( ) ) {}" % (a.name, B, B))
    o.append("  explicit B_%s( %s* x ) : b( x ) {}" % (a.name, B))
    o.append("  bool open( ) override { return b->is_open( ) && static_cast< bool >( *b ); }")
    prep, st, start, sub = [], [], [], []
    for i, r in enumerate(a.resources):
        if r.kind == "vector":
            t = "%s::%s" % (ns, r.types[0])
            prep.append("case %d: return prepare_vector< %s >( v );" % (i, t))
            st.append("case %d: return b->set_%s( static_cast< PreparedVector< %s >& >( p ).v );" % (i, r.name, t))
            start.append("case %d: return make_stream( b->start_%s( ) );" % (i, r.name))
        elif r.kind == "instance":
            t = "%s::%s" % (ns, r.types[0])
            prep.append("case %d: return prepare_struct< %s >( v );" % (i, t))
            st.append("case %d: return b->set_%s( *static_cast< PreparedStruct< %s >& >( p ).v );" % (i, r.name, t))
        elif r.kind == "raw_data":
            prep.append("case %d: return prepare_raw( v );" % i)
            st.append("case %d: { auto& q = static_cast< PreparedRaw& >( p ); return b->set_%s( flatdata::MemoryDescriptor( q.d.get( ), q.n ) ); }" % (i, r.name))
        elif r.kind == "multivector":
            start.append("case %d: return make_stream( b->start_%s( ) );" % (i, r.name))
        else:
            sub.append("case %d: return std::unique_ptr< Builder >( new B_%s( &b->%s( ) ) );" % (i, r.types[0], r.name))
    o.append("  std::unique_ptr< Prepared > prepare( int i, const Value& v ) override { (void)v; switch( i ) { %s } return nullptr; }" % "\n    ".join(prep))
    o.append("  bool set( int i, Prepared& p ) override { (void)p; switch( i ) { %s } throw std::logic_error( \"no such setter\" ); }" % "\n    ".join(st))
    o.append("  std::unique_ptr< Stream > start( int i ) override { switch( i ) { %s } throw std::logic_error( \"no such stream\" ); }" % "\n    ".join(start))
    o.append("  std::unique_ptr< Builder > sub( int i ) override { switch( i ) { %s } throw std::logic_error( \"no such archive\" ); }" % "\n    ".join(sub))
    o.append("};")
    # reader
    o.append("void dump_%s( std::ostream& o, const %s& a, const std::string& path ) {" % (a.name, T))
    for r in a.resources:
        deref, guard, end = "a.%s( )" % r.name, "", ""
        if r.optional:
            deref = "*a.%s( )" % r.name
            guard = "if ( !a.%s( ) ) o << path << \"%s absent\\n\"; else " % (r.name, r.name)
        if r.kind == "archive":
            o.append("  %s dump_%s( o, %s, path + \"%s/\" );" % (guard, r.types[0], deref, r.name))
        else:
            f = {"vector": "dump_view", "instance": "dump_instance", "raw_data": "dump_raw", "multivector": "dump_multi"}[r.kind]
            o.append("  %s { o << path << \"%s \"; %s( o, %s ); o << \"\\n\"; }" % (guard, r.name, f, deref))
    o.append("  o << path << \" \" << ( a.is_open( ) && static_cast< bool >( a ) ? \"open\" : \"closed\" ) << \"\\n\";")
    o.append("}")
    o.append("struct A_%s : Arch {" % a.name)
    o.append("  %s a;" % T)
    o.append("  explicit A_%s( std::shared_ptr< flatdata::ResourceStorage > s ) : a( %s::open( s ) ) {}" % (a.name, T))
    o.append("  bool open( ) override { return a.is_open( ); }")
    o.append("  void dump( std::ostream& o, const std::string& p ) override { dump_%s( o, a, p ); }" % a.name)
    o.append("  std::string describe( ) override { return a.describe( ); }")
    o.append("#ifdef DRV_VIEWS")
    o.append("  explicit A_%s( %s x ) : a( std::move( x ) ) {}" % (a.name, T))
    keep, sub = [], []
    for i, r in enumerate(a.resources):
        x = "a.%s( )" % r.name
        if r.optional:
            x = "*" + x
        guard = "if ( !a.%s( ) ) return nullptr; " % r.name if r.optional else ""
        if r.kind == "archive":
            sub.append("case %d: %sreturn std::unique_ptr< Arch >( new A_%s( %s ) );" % (i, guard, r.types[0], x))
        else:
            keep.append("case %d: %sreturn make_kept( %s );" % (i, guard, x))
    o.append("  std::unique_ptr< Kept > keep( int i ) override { switch( i ) { %s } return nullptr; }" % "\n    ".join(keep))
    o.append("  std::unique_ptr< Arch > sub( int i ) override { switch( i ) { %s } return nullptr; }" % "\n    ".join(sub))
    o.append("  std::unique_ptr< Arch > clone( ) override { return std::unique_ptr< Arch >( new A_%s( a ) ); }" % a.name)
    o.append("  std::unique_ptr< Arch > move( ) override { return std::unique_ptr< Arch >( new A_%s( std::move( a ) ) ); }" % a.name)
    o.append("  bool assign( Arch& x ) override { auto p = dynamic_cast< A_%s* >( &x ); if ( p ) a = p->a; return p != nullptr; }" % a.name)
    o.append("#endif")
    o.append("};")
    return "\n".join(o)


def glue(schema, sid, header):
    o = ["#include \"%s\"" % header, "#include \"driver.h\"", "namespace drv {"]
    for s in schema.structs:
        o.append(struct_ops(schema, s))
    o.append("namespace {")
    for a in schema.archives:
        o.append(archive_glue(schema, a))
    o.append("std::unique_ptr< Builder > mk_b( int i, std::shared_ptr< flatdata::ResourceStorage > s ) { switch( i ) {")
    for i, a in enumerate(schema.archives):
        o.append("  case %d: return std::unique_ptr< Builder >( new B_%s( s ) );" % (i, a.name))
    o.append("  } return nullptr; }")
    o.append("std::unique_ptr< Arch > mk_a( int i, std::shared_ptr< flatdata::ResourceStorage > s ) { switch( i ) {")
    for i, a in enumerate(schema.archives):
        o.append("  case %d: return std::unique_ptr< Arch >( new A_%s( s ) );" % (i, a.name))
    o.append("  } return nullptr; }")
    o.append("Register reg( \"%s\", SchemaOps{ mk_b, mk_a } );" % sid)
    o.append("} }")
    return "\n".join(o) + "\n"
