G = """	for(auto &e:storage){
	    if(e.range.empty())continue; // unused slot
	    if( (e.p==p) && (e.m==t) && (e.config==c)){
        return e;
	    }
	}
    Add(p,t,c);
	//return storage.back();
    return *std::prev(index);"""
MEQ = """    for(int i=0;i<a.ncomponents();i++){
        if(a.atoms[i].stn != b.atoms[i].stn)return false;
        if(a.atoms[i].A != b.atoms[i].A)return false;
        if(a.atoms[i].Z != b.atoms[i].Z)return false;
    }"""
S = "src/storage.cpp"
ST = "src/structures.cpp"
PEQ = """    if( (a.A==b.A) && (a.Z==b.Z) && (a.Q==b.Q)){
        return true;
        }
    else
        return false;"""
ADD = """	DataPoint dp(p,t,c);
	for(auto &e:storage){
	    if(e.range.empty())continue; // unused slot
	    if(e==dp)return; 
	}
    if(index==storage.end())index=storage.begin();
    *index = calculate_DataPoint(p,t,c);"""
ENTRIES = [
    ("noQ", "bug", ["P01"], [(ST, "(a.Z==b.Z) && (a.Q==b.Q)", "(a.Z==b.Z)")]),
    ("noI", "bug", ["P01"], [(ST, "    if(a.I() != b.I())return false;\n", "")]),
    ("nomm", "bug", ["P01"], [(ST, "    if(a.molar_mass != b.molar_mass)return false;\n", "")]),
    ("nocompA", "bug", ["P01"], [(ST, "        if(a.atoms[i].A != b.atoms[i].A)return false;\n", "")]),
    ("tolA", "bug", ["P01"], [(ST, "if(a.atoms[i].A != b.atoms[i].A)", "if(std::fabs(a.atoms[i].A - b.atoms[i].A)>1e-3)")]),
    ("skiplast", "bug", ["P01"], [(ST, "for(int i=0;i<a.ncomponents();i++){\n        if(a.atoms[i].stn", "for(int i=0;i<a.ncomponents()-1;i++){\n        if(a.atoms[i].stn")]),
    ("fromone", "bug", ["P01"], [(ST, "for(int i=0;i<a.ncomponents();i++){\n        if(a.atoms[i].stn", "for(int i=1;i<a.ncomponents();i++){\n        if(a.atoms[i].stn")]),
    ("intZ", "bug", ["P01"], [(ST, "(a.Z==b.Z) && (a.Q==b.Q)", "((int)a.Z==(int)b.Z) && (a.Q==b.Q)")]),
    ("getnoconf", "bug", ["P01"], [(S, "(e.m==t) && (e.config==c)", "(e.m==t)")]),
    ("retback", "bug", ["P02"], [(S, "return *std::prev(index);", "return storage.back();")]),
    ("retfront", "bug", ["P02"], [(S, "    Add(p,t,c);\n\t//return storage.back();\n    return *std::prev(index);", "    Add(p,t,c);\n    return index==storage.begin()?storage.back():*std::prev(index);"[:0] + "    auto &slot = *index;\n    Add(p,t,c);\n    return slot;")]),
    ("nowrap", "bug", ["P02"], [(S, "if(index==storage.end())index=storage.begin();", "if(index>storage.end())index=storage.begin();")]),
    ("wrongspl", "bug", ["P02"], [(S, "    index->range_straggling_spline = Interpolator(energy_table, index->range_straggling);", "    index->range_straggling_spline = Interpolator(energy_table, index->range);")]),
    ("localspl", "bug", ["P02"], [(S, "    *index = calculate_DataPoint(p,t,c);", "    auto nd = calculate_DataPoint(p,t,c);\n    *index = nd;"), (S, "Interpolator(energy_table, index->range);", "Interpolator(energy_table, nd.range);")]),
    ("accessor", "bug", ["P02"], [(S, "        return data.angular_variance_spline;\n    }\n#else", "        return data.range_straggling_spline;\n    }\n#else")]),
    ("accessor2", "bug", ["P02"], [(S, "        return Interpolator(energy_table,data.angular_variance);", "        return Interpolator(energy_table,data.range_straggling);")]),
    ("addcond", "bug", ["P02"], [(S, "    if((a.m == b.m)"[:0] + "    if(e==dp)return; ", "    if(e.m==t && e.p==p)return; ")]),
    ("unused", "bug", ["P02"], [(S, "	    if(e.range.empty())continue; // unused slot\n	    if( (e.p==p)", "	    if( (e.p==p)")]),
    ("reset", "bug", ["P02"], [("include/catima/storage.h", "storage.clear();storage.resize(max_storage_data);index", "storage.clear();index")]),
    ("defconf", "bug", ["P02"], [(S, "*index = calculate_DataPoint(p,t,c);", "*index = calculate_DataPoint(p,t);")]),
    # behaviour-preserving
    ("ok-index-loop", "ok", None, [(S, G, """    for(std::size_t i=0;i<storage.size();i++){
        DataPoint &e = storage[i];
        if(!e.range.empty() && e.config==c && e.p==p && e.m==t)
            return e;
    }
    Add(p,t,c);
    return *(index-1);""")]),
    ("ok-helper", "ok", None, [(S, " DataPoint& Data::Get(", """static bool same(const DataPoint &e, const Projectile &p, const Material &t, const Config &c){
    if(e.range.empty())return false;
    if(!(e.p==p))return false;
    return (e.m==t) && (e.config==c);
}
 DataPoint& Data::Get("""), (S, G, """    for(auto it=storage.begin();it!=storage.end();++it){
        if(same(*it,p,t,c))return *it;
    }
    Add(p,t,c);
    auto last = index;
    --last;
    return *last;""")]),
    ("ok-noadd-dup", "ok", None, [(S, ADD, """    if(index==storage.end())index=storage.begin();
    *index = calculate_DataPoint(p,t,c);""")]),
    ("ok-ptr-found", "ok", None, [(S, G, """    DataPoint *found = nullptr;
    for(auto &e:storage){
        if(e.range.empty())continue;
        if( (e.p==p) && (e.m==t) && (e.config==c)){
            found = &e;
            break;
        }
    }
    if(found!=nullptr)return *found;
    Add(p,t,c);
    return *std::prev(index);""")]),
    ("ok-while", "ok", None, [(ST, MEQ, """    int i=0;
    while(i<b.ncomponents()){
        const Target &x = a.atoms[i];
        const Target &y = b.atoms[i];
        if(x.Z != y.Z || x.A != y.A || !(x.stn == y.stn))return false;
        ++i;
    }""")]),
    ("ok-flag", "ok", None, [(ST, MEQ, """    bool same = true;
    for(int i=0;i<a.ncomponents();i++){
        same = same && a.atoms[i].stn == b.atoms[i].stn && a.atoms[i].A == b.atoms[i].A && a.atoms[i].Z == b.atoms[i].Z;
    }
    if(!same)return false;""")]),
    ("ok-reverse", "ok", None, [(ST, MEQ, """    for(int i=a.ncomponents()-1;i>=0;i--){
        if(a.atoms[i].stn != b.atoms[i].stn)return false;
        if(a.atoms[i].A != b.atoms[i].A)return false;
        if(a.atoms[i].Z != b.atoms[i].Z)return false;
    }""")]),
    ("ok-equal", "ok", None, [(ST, MEQ, """    if(!std::equal(a.atoms.begin(), a.atoms.end(), b.atoms.begin(), [](const Target &x, const Target &y){
        return x.stn==y.stn && x.A==y.A && x.Z==y.Z;}))return false;"""), (ST, "#include <cmath>", "#include <cmath>\n#include <algorithm>")]),
    ("ok-findif", "ok", None, [(S, G, """    auto it = std::find_if(storage.begin(), storage.end(), [&](const DataPoint &e){
        return !e.range.empty() && e.p==p && e.m==t && e.config==c;});
    if(it!=storage.end())return *it;
    Add(p,t,c);
    return *std::prev(index);"""), (S, "#include <iostream>", "#include <iostream>\n#include <algorithm>")]),
    ("ok-proj", "ok", None, [(ST, PEQ, """    const bool same_nucleus = a.A==b.A && a.Z==b.Z;
    return same_nucleus && !(a.Q!=b.Q);""")]),
    ("ok-addref", "ok", None, [(S, "    *index = calculate_DataPoint(p,t,c);", "    DataPoint &slot = *index;\n    slot = calculate_DataPoint(p,t,c);"),
        (S, "    index->range_spline = Interpolator(energy_table, index->range);", "    slot.range_spline = Interpolator(energy_table, slot.range);"),
        (S, "    index++;", "    ++index;")]),
    ("ok-wrapafter", "ok", None, [(S, "    if(index==storage.end())index=storage.begin();\n", ""), (S, "    index++;\n", "    index++;\n    if(index==storage.end())index=storage.begin();\n"),
        (S, "    Add(p,t,c);\n\t//return storage.back();\n    return *std::prev(index);", "    DataPoint &slot = *index;\n    Add(p,t,c);\n    return slot;")]),
]
