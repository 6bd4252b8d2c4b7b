"""P08: material database"""
D = "src/material_database.cpp"
V = "include/catima/convert.h"
P = ["P08"]
ENTRIES = [
    ("count", "bug", P, [(D, "case material::Glycerol:	 return Material({{0,1,8},{0,6,3},{0,8,3}}", "case material::Glycerol:	 return Material({{0,1,5},{0,6,3},{0,8,3}}")]),
    ("elem", "bug", P, [(D, "case material::CdWO4:	 return Material({{0,8,4},{0,48,1},{0,74,1}}", "case material::CdWO4:	 return Material({{0,8,4},{0,48,1},{0,73,1}}")]),
    ("frac", "bug", P, [(D, "{0,82,0.751938}", "{0,82,0.715938}")]),
    ("missing", "bug", P, [(D, "		 case material::Toluene:	 return Material({{0,1,8},{0,6,7}},0.8669);\n", "")]),
    ("export", "bug", P, [(V, "i<=349", "i<349")]),
    ("lenient", "bug", P, [(V, "    for(int i=0;i<a.ncomponents();i++){\n        if(a.get_element(i).stn != b.get_element(i).stn)return false;\n        if(a.get_element(i).A != b.get_element(i).A)return false;\n        if(a.get_element(i).Z != b.get_element(i).Z)return false;\n    }\n    if(a.M() != b.M())return false;\n", "")]),
    ("elem98", "bug", P, [(D, "id<ELEMENT_DENSITY_MAXZ", "id<ELEMENT_DENSITY_MAXZ-1")]),
    ("unknown", "bug", P, [(D, "            default:break;", "            default: return Material({{0,6,1}},2.0);")]),
    ("dup", "bug", P, [(D, "{0,29,0.63},{0,30,0.35},{0,82,0.02}", "{0,29,0.63},{0,30,0.35},{0,29,0.02}")]),
    ("r-search", "ok", P, [(V, """    for(int i=201;i<=349;i++){
        if(mocadi_material_match(get_material(i),m)){
            return i;
        }
    }
    return 0;""", """    const int first = static_cast<int>(material::Plastics);
    const int last = static_cast<int>(material::RW3);
    int found = 0;
    int i = first;
    while(found==0 && i<=last){
        const Material candidate = get_material(i);
        if(mocadi_material_match(m,candidate)) found = i;
        ++i;
    }
    return found;""")]),
    ("r-down", "ok", P, [(V, """    for(int i=201;i<=349;i++){
        if(mocadi_material_match(get_material(i),m)){
            return i;
        }
    }
    return 0;""", """    int found = 0;
    for(int i=349;i>=201;i--){
        if(mocadi_material_match(get_material(i),m))found = i;
    }
    return found;""")]),
    ("r-helper", "ok", P, [(D, "    Material get_compound(material m){\n", """    static Material hydrocarbon(int nc, int nh, double rho){
        Material m;
        m.add_element(0,6,nc);
        m.add_element(0,1,nh);
        m.density(rho);
        return m;
    }
    Material get_compound(material m){
"""), (D, "return Material({{0,1,8},{0,6,7}},0.8669);", "return hydrocarbon(7,8,0.8669);"), (D, "        if(id>0 && id<ELEMENT_DENSITY_MAXZ){\n", "        const bool element = (id>0) && (id<=ELEMENT_DENSITY_MAXZ-1);\n        if(element){\n")]),
]
