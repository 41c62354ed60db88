// Written by tools/gen15.py.
models! {
    M0, "b23", "id7", [QueryColumn::Column("id25")];
    M1, "select22", "x_110", [QueryColumn::Column("with space"), QueryColumn::Column("map11")];
    M2, "b", "b", [QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong9"), QueryColumn::Column("_"), QueryColumn::Column("Größe14")];
    M3, "02", "with space11", [];
    M4, "dot.ted22", "select24", [QueryColumn::Column("0"), QueryColumn::Column("name26"), QueryColumn::Column("id17"), QueryColumn::Column("a"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong")];
    M5, "id15", "a", [QueryColumn::Column("name"), QueryColumn::Column("Größe14"), QueryColumn::Column("ünï"), QueryColumn::Column("q?29"), QueryColumn::Column("q?17"), QueryColumn::Column("q?7"), QueryColumn::Column("map26"), QueryColumn::Column("select28"), QueryColumn::Column("with space14"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong29"), QueryColumn::Column("0"), QueryColumn::Column("with space21"), QueryColumn::Column("with space0"), QueryColumn::Column("023"), QueryColumn::Column("name1"), QueryColumn::Column("with space"), QueryColumn::Column("map15"), QueryColumn::Column("dot.ted15"), QueryColumn::Column("id15"), QueryColumn::Column("014"), QueryColumn::Column("b"), QueryColumn::Column("dot.ted23"), QueryColumn::Column("map"), QueryColumn::Column("dot.ted10"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong"), QueryColumn::Column("Größe1"), QueryColumn::Column("dot.ted"), QueryColumn::Column("map9"), QueryColumn::Column("q?"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong27")];
    M6, "_", "x_1", [QueryColumn::Column("_4"), QueryColumn::Column("map16"), QueryColumn::Column("x_17"), QueryColumn::Column("select15"), QueryColumn::Column("x_111")];
    M7, "x_1", "027", [QueryColumn::Column("name"), QueryColumn::Column("Größe28"), QueryColumn::Column("x_110"), QueryColumn::Column("dot.ted15"), QueryColumn::Column("name25"), QueryColumn::Column("name"), QueryColumn::Reference(QueryColumnReference { column: "06", table: "dot.ted19", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong12", columns: &[QueryColumn::Column("b"), QueryColumn::Column("select3"), QueryColumn::Column("q?")] }), QueryColumn::Column("0"), QueryColumn::Column("x_119"), QueryColumn::Column("select"), QueryColumn::Reference(QueryColumnReference { column: "a", table: "x_1", key: "id22", columns: &[QueryColumn::Column("dot.ted"), QueryColumn::Column("name8")] }), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", table: "with space28", key: "_5", columns: &[QueryColumn::Column("dot.ted")] }), QueryColumn::Reference(QueryColumnReference { column: "b28", table: "a18", key: "a15", columns: &[QueryColumn::Column("with space"), QueryColumn::Column("with space13"), QueryColumn::Column("name29")] }), QueryColumn::Column("ünï0"), QueryColumn::Column("Größe"), QueryColumn::Reference(QueryColumnReference { column: "id", table: "with space10", key: "with space", columns: &[QueryColumn::Column("dot.ted"), QueryColumn::Column("Größe14"), QueryColumn::Column("Größe"), QueryColumn::Column("q?")] }), QueryColumn::Reference(QueryColumnReference { column: "with space", table: "x_1", key: "dot.ted2", columns: &[QueryColumn::Column("b"), QueryColumn::Column("a")] }), QueryColumn::Column("select12"), QueryColumn::Column("x_1"), QueryColumn::Column("map27"), QueryColumn::Reference(QueryColumnReference { column: "name22", table: "ünï5", key: "dot.ted9", columns: &[QueryColumn::Column("a16"), QueryColumn::Column("b"), QueryColumn::Column("with space")] }), QueryColumn::Column("select6"), QueryColumn::Reference(QueryColumnReference { column: "b", table: "020", key: "with space", columns: &[QueryColumn::Column("select25"), QueryColumn::Column("07"), QueryColumn::Column("x_1")] }), QueryColumn::Reference(QueryColumnReference { column: "Größe10", table: "name", key: "with space21", columns: &[QueryColumn::Column("ünï21"), QueryColumn::Column("022")] }), QueryColumn::Column("map7"), QueryColumn::Column("with space"), QueryColumn::Column("0"), QueryColumn::Column("a"), QueryColumn::Column("b"), QueryColumn::Column("q?")];
    M8, "dot.ted19", "id1", [QueryColumn::Reference(QueryColumnReference { column: "016", table: "map18", key: "_11", columns: &[QueryColumn::Column("q?"), QueryColumn::Reference(QueryColumnReference { column: "_", table: "_", key: "dot.ted", columns: &[QueryColumn::Column("Größe")] })] }), QueryColumn::Column("a3"), QueryColumn::Reference(QueryColumnReference { column: "id", table: "ünï", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong4", columns: &[QueryColumn::Reference(QueryColumnReference { column: "_", table: "name", key: "id8", columns: &[QueryColumn::Column("_16"), QueryColumn::Column("id0")] })] }), QueryColumn::Reference(QueryColumnReference { column: "with space", table: "with space4", key: "select19", columns: &[QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", table: "ünï", key: "_10", columns: &[QueryColumn::Column("select")] }), QueryColumn::Reference(QueryColumnReference { column: "a29", table: "029", key: "x_1", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong"), QueryColumn::Column("_4"), QueryColumn::Column("q?"), QueryColumn::Column("b4")] }), QueryColumn::Column("Größe2"), QueryColumn::Column("Größe")] }), QueryColumn::Reference(QueryColumnReference { column: "ünï11", table: "a6", key: "name11", columns: &[QueryColumn::Column("b18")] }), QueryColumn::Reference(QueryColumnReference { column: "dot.ted22", table: "id20", key: "_", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong")] }), QueryColumn::Reference(QueryColumnReference { column: "with space5", table: "select", key: "x_1", columns: &[QueryColumn::Reference(QueryColumnReference { column: "id", table: "select19", key: "a", columns: &[QueryColumn::Column("Größe"), QueryColumn::Column("with space"), QueryColumn::Column("_24")] })] }), QueryColumn::Column("x_14"), QueryColumn::Reference(QueryColumnReference { column: "b", table: "name12", key: "b13", columns: &[QueryColumn::Reference(QueryColumnReference { column: "0", table: "ünï17", key: "ünï18", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong")] }), QueryColumn::Reference(QueryColumnReference { column: "a3", table: "with space", key: "a22", columns: &[QueryColumn::Column("017")] }), QueryColumn::Reference(QueryColumnReference { column: "ünï4", table: "_", key: "_15", columns: &[QueryColumn::Column("map9")] }), QueryColumn::Reference(QueryColumnReference { column: "0", table: "q?2", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong12", columns: &[QueryColumn::Column("x_115"), QueryColumn::Column("select16"), QueryColumn::Column("a9")] })] }), QueryColumn::Reference(QueryColumnReference { column: "Größe", table: "011", key: "select", columns: &[QueryColumn::Reference(QueryColumnReference { column: "_24", table: "09", key: "028", columns: &[QueryColumn::Column("select")] }), QueryColumn::Reference(QueryColumnReference { column: "a", table: "ünï", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong21", columns: &[QueryColumn::Column("dot.ted")] })] }), QueryColumn::Column("06"), QueryColumn::Column("name"), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong28", table: "0", key: "dot.ted20", columns: &[QueryColumn::Reference(QueryColumnReference { column: "dot.ted27", table: "b", key: "Größe4", columns: &[QueryColumn::Column("q?19")] })] }), QueryColumn::Column("ünï18"), QueryColumn::Column("q?"), QueryColumn::Reference(QueryColumnReference { column: "q?27", table: "name10", key: "q?17", columns: &[QueryColumn::Reference(QueryColumnReference { column: "Größe2", table: "id5", key: "0", columns: &[QueryColumn::Column("_18")] })] }), QueryColumn::Column("dot.ted"), QueryColumn::Column("x_1"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong27"), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong17", table: "dot.ted", key: "dot.ted22", columns: &[QueryColumn::Column("b")] }), QueryColumn::Column("b4"), QueryColumn::Reference(QueryColumnReference { column: "name19", table: "q?", key: "b", columns: &[QueryColumn::Reference(QueryColumnReference { column: "_17", table: "with space15", key: "_", columns: &[QueryColumn::Column("b"), QueryColumn::Column("q?14")] }), QueryColumn::Reference(QueryColumnReference { column: "dot.ted11", table: "Größe8", key: "dot.ted", columns: &[QueryColumn::Column("ünï"), QueryColumn::Column("with space2")] }), QueryColumn::Reference(QueryColumnReference { column: "x_1", table: "_", key: "id", columns: &[QueryColumn::Column("with space"), QueryColumn::Column("select20"), QueryColumn::Column("with space")] }), QueryColumn::Column("b")] }), QueryColumn::Column("b26"), QueryColumn::Reference(QueryColumnReference { column: "select", table: "b", key: "dot.ted1", columns: &[QueryColumn::Reference(QueryColumnReference { column: "name18", table: "x_1", key: "ünï", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong20"), QueryColumn::Column("04"), QueryColumn::Column("map7")] })] }), QueryColumn::Column("a"), QueryColumn::Column("select"), QueryColumn::Column("a"), QueryColumn::Column("name"), QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "id26", key: "q?", columns: &[QueryColumn::Column("id"), QueryColumn::Column("q?15")] }), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", key: "map8", columns: &[QueryColumn::Reference(QueryColumnReference { column: "map", table: "ünï", key: "b29", columns: &[QueryColumn::Column("id")] }), QueryColumn::Column("ünï"), QueryColumn::Reference(QueryColumnReference { column: "_15", table: "select", key: "select", columns: &[QueryColumn::Column("a2")] }), QueryColumn::Column("_")] })];
    M9, "b5", "map8", [QueryColumn::Column("ünï"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong16"), QueryColumn::Column("map8"), QueryColumn::Reference(QueryColumnReference { column: "a18", table: "a4", key: "select13", columns: &[QueryColumn::Column("_"), QueryColumn::Column("map0"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong28")] }), QueryColumn::Reference(QueryColumnReference { column: "ünï19", table: "q?", key: "id", columns: &[QueryColumn::Column("with space")] }), QueryColumn::Column("with space0"), QueryColumn::Reference(QueryColumnReference { column: "with space26", table: "name", key: "dot.ted", columns: &[QueryColumn::Column("id")] }), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong")];
    M10, "id24", "Größe1", [QueryColumn::Column("Größe29"), QueryColumn::Reference(QueryColumnReference { column: "06", table: "q?7", key: "dot.ted4", columns: &[QueryColumn::Column("name0"), QueryColumn::Column("_28"), QueryColumn::Column("_17")] }), QueryColumn::Reference(QueryColumnReference { column: "name4", table: "Größe", key: "q?", columns: &[QueryColumn::Column("q?3")] }), QueryColumn::Column("Größe5"), QueryColumn::Column("q?2"), QueryColumn::Reference(QueryColumnReference { column: "with space6", table: "0", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong16", columns: &[QueryColumn::Column("a19"), QueryColumn::Column("q?"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong15")] }), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong"), QueryColumn::Column("ünï16")];
    M11, "name0", "dot.ted", [QueryColumn::Reference(QueryColumnReference { column: "x_1", table: "Größe", key: "ünï17", columns: &[QueryColumn::Reference(QueryColumnReference { column: "id", table: "map", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", columns: &[QueryColumn::Column("a8"), QueryColumn::Column("id"), QueryColumn::Column("x_1"), QueryColumn::Reference(QueryColumnReference { column: "map", table: "a", key: "ünï", columns: &[QueryColumn::Reference(QueryColumnReference { column: "select", table: "x_129", key: "_", columns: &[QueryColumn::Column("Größe26"), QueryColumn::Column("map17")] }), QueryColumn::Reference(QueryColumnReference { column: "name", table: "map29", key: "name", columns: &[QueryColumn::Column("id")] }), QueryColumn::Reference(QueryColumnReference { column: "a7", table: "ünï20", key: "027", columns: &[QueryColumn::Column("name21"), QueryColumn::Column("b"), QueryColumn::Column("x_1")] })] })] }), QueryColumn::Column("name25")] }), QueryColumn::Reference(QueryColumnReference { column: "name", table: "id4", key: "a", columns: &[QueryColumn::Column("a"), QueryColumn::Reference(QueryColumnReference { column: "a", table: "025", key: "a18", columns: &[QueryColumn::Column("name27")] })] }), QueryColumn::Column("Größe17"), QueryColumn::Column("id"), QueryColumn::Reference(QueryColumnReference { column: "a17", table: "dot.ted", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong5", columns: &[QueryColumn::Column("dot.ted16"), QueryColumn::Reference(QueryColumnReference { column: "name", table: "b", key: "_4", columns: &[QueryColumn::Column("b24"), QueryColumn::Column("name"), QueryColumn::Column("010")] })] })];
    M12, "map", "_24", [QueryColumn::Column("b5"), QueryColumn::Reference(QueryColumnReference { column: "b25", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong21", key: "id26", columns: &[QueryColumn::Column("id")] }), QueryColumn::Reference(QueryColumnReference { column: "q?6", table: "select14", key: "a", columns: &[QueryColumn::Column("_18")] }), QueryColumn::Column("map"), QueryColumn::Reference(QueryColumnReference { column: "a", table: "q?26", key: "with space2", columns: &[QueryColumn::Column("name2")] }), QueryColumn::Column("x_1"), QueryColumn::Reference(QueryColumnReference { column: "map3", table: "dot.ted21", key: "q?17", columns: &[QueryColumn::Column("ünï5")] }), QueryColumn::Column("id")];
    M13, "a", "x_129", [QueryColumn::Column("select15"), QueryColumn::Column("Größe"), QueryColumn::Column("q?16"), QueryColumn::Column("_15"), QueryColumn::Column("q?"), QueryColumn::Column("id"), QueryColumn::Column("ünï"), QueryColumn::Column("b18"), QueryColumn::Reference(QueryColumnReference { column: "dot.ted9", table: "ünï", key: "b26", columns: &[QueryColumn::Column("dot.ted"), QueryColumn::Column("b1")] }), QueryColumn::Column("b19"), QueryColumn::Column("a"), QueryColumn::Column("name29"), QueryColumn::Column("b"), QueryColumn::Reference(QueryColumnReference { column: "map", table: "b", key: "q?5", columns: &[QueryColumn::Column("x_1"), QueryColumn::Column("b3"), QueryColumn::Column("q?27"), QueryColumn::Column("select14")] }), QueryColumn::Column("x_17"), QueryColumn::Reference(QueryColumnReference { column: "map2", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong21", key: "dot.ted11", columns: &[QueryColumn::Reference(QueryColumnReference { column: "map", table: "map16", key: "id", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong23"), QueryColumn::Column("b"), QueryColumn::Reference(QueryColumnReference { column: "with space6", table: "01", key: "a0", columns: &[QueryColumn::Reference(QueryColumnReference { column: "0", table: "dot.ted11", key: "id11", columns: &[QueryColumn::Column("with space12"), QueryColumn::Column("name"), QueryColumn::Column("map11")] })] }), QueryColumn::Reference(QueryColumnReference { column: "x_12", table: "b9", key: "_", columns: &[QueryColumn::Column("map9"), QueryColumn::Reference(QueryColumnReference { column: "_21", table: "b", key: "select", columns: &[QueryColumn::Column("id"), QueryColumn::Column("_11"), QueryColumn::Column("map28"), QueryColumn::Column("x_12")] }), QueryColumn::Reference(QueryColumnReference { column: "_22", table: "ünï", key: "Größe", columns: &[QueryColumn::Column("dot.ted24")] }), QueryColumn::Reference(QueryColumnReference { column: "Größe", table: "q?3", key: "with space26", columns: &[QueryColumn::Column("a28")] })] })] })] }), QueryColumn::Reference(QueryColumnReference { column: "with space22", table: "x_1", key: "id4", columns: &[QueryColumn::Column("with space29")] }), QueryColumn::Column("select14"), QueryColumn::Column("x_110"), QueryColumn::Reference(QueryColumnReference { column: "with space13", table: "b19", key: "with space12", columns: &[QueryColumn::Column("map21")] }), QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "x_1", key: "select12", columns: &[QueryColumn::Column("011"), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong4", table: "dot.ted1", key: "id6", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong")] }), QueryColumn::Column("_26"), QueryColumn::Reference(QueryColumnReference { column: "_", table: "b", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong11", columns: &[QueryColumn::Column("ünï24")] })] }), QueryColumn::Reference(QueryColumnReference { column: "map", table: "q?", key: "_7", columns: &[QueryColumn::Reference(QueryColumnReference { column: "Größe", table: "id17", key: "q?", columns: &[QueryColumn::Reference(QueryColumnReference { column: "b14", table: "a9", key: "dot.ted12", columns: &[QueryColumn::Column("_")] }), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", table: "with space4", key: "with space20", columns: &[QueryColumn::Reference(QueryColumnReference { column: "with space5", table: "b15", key: "_13", columns: &[QueryColumn::Column("_4"), QueryColumn::Column("ünï7"), QueryColumn::Column("014")] })] })] }), QueryColumn::Column("_7"), QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "with space", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong5", columns: &[QueryColumn::Column("Größe"), QueryColumn::Column("name"), QueryColumn::Reference(QueryColumnReference { column: "a", table: "a11", key: "q?12", columns: &[QueryColumn::Column("dot.ted"), QueryColumn::Reference(QueryColumnReference { column: "Größe", table: "with space", key: "map29", columns: &[QueryColumn::Column("017"), QueryColumn::Column("Größe4"), QueryColumn::Column("x_127")] }), QueryColumn::Column("select5"), QueryColumn::Column("map20")] })] }), QueryColumn::Column("select")] }), QueryColumn::Column("select15"), QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", key: "_", columns: &[QueryColumn::Reference(QueryColumnReference { column: "map12", table: "q?", key: "Größe26", columns: &[QueryColumn::Column("map18"), QueryColumn::Column("b"), QueryColumn::Reference(QueryColumnReference { column: "name2", table: "map28", key: "Größe27", columns: &[QueryColumn::Column("select1")] })] }), QueryColumn::Column("Größe")] }), QueryColumn::Reference(QueryColumnReference { column: "name", table: "Größe", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", columns: &[QueryColumn::Reference(QueryColumnReference { column: "b", table: "ünï22", key: "b3", columns: &[QueryColumn::Column("id20"), QueryColumn::Reference(QueryColumnReference { column: "_", table: "b5", key: "q?17", columns: &[QueryColumn::Column("map20"), QueryColumn::Column("Größe0"), QueryColumn::Column("Größe9"), QueryColumn::Reference(QueryColumnReference { column: "0", table: "dot.ted12", key: "q?18", columns: &[QueryColumn::Column("Größe")] })] }), QueryColumn::Column("_"), QueryColumn::Column("x_121")] })] }), QueryColumn::Column("name"), QueryColumn::Column("ünï"), QueryColumn::Reference(QueryColumnReference { column: "id10", table: "dot.ted13", key: "_0", columns: &[QueryColumn::Column("0"), QueryColumn::Reference(QueryColumnReference { column: "with space25", table: "with space1", key: "a16", columns: &[QueryColumn::Column("x_1"), QueryColumn::Column("select")] }), QueryColumn::Column("select17"), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong21", table: "021", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong4", columns: &[QueryColumn::Column("x_126"), QueryColumn::Reference(QueryColumnReference { column: "_6", table: "select", key: "with space", columns: &[QueryColumn::Column("id3")] })] })] }), QueryColumn::Reference(QueryColumnReference { column: "name6", table: "ünï8", key: "0", columns: &[QueryColumn::Column("ünï")] }), QueryColumn::Reference(QueryColumnReference { column: "with space2", table: "a", key: "with space23", columns: &[QueryColumn::Reference(QueryColumnReference { column: "a16", table: "x_1", key: "select13", columns: &[QueryColumn::Column("dot.ted0")] }), QueryColumn::Reference(QueryColumnReference { column: "map5", table: "with space17", key: "name", columns: &[QueryColumn::Column("Größe17"), QueryColumn::Column("with space7"), QueryColumn::Reference(QueryColumnReference { column: "x_122", table: "x_129", key: "a29", columns: &[QueryColumn::Reference(QueryColumnReference { column: "q?", table: "id", key: "ünï21", columns: &[QueryColumn::Column("q?26")] }), QueryColumn::Reference(QueryColumnReference { column: "_", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", key: "id3", columns: &[QueryColumn::Column("b"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong"), QueryColumn::Column("dot.ted29")] }), QueryColumn::Column("b"), QueryColumn::Reference(QueryColumnReference { column: "name", table: "Größe17", key: "dot.ted", columns: &[QueryColumn::Column("ünï"), QueryColumn::Column("with space"), QueryColumn::Column("b6")] })] }), QueryColumn::Reference(QueryColumnReference { column: "name", table: "a29", key: "dot.ted27", columns: &[QueryColumn::Column("map3"), QueryColumn::Reference(QueryColumnReference { column: "id23", table: "b", key: "Größe", columns: &[QueryColumn::Column("b26")] }), QueryColumn::Reference(QueryColumnReference { column: "a", table: "Größe10", key: "map6", columns: &[QueryColumn::Column("map24")] })] })] }), QueryColumn::Column("select23")] })];
    M14, "q?28", "_", [QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "010", key: "b26", columns: &[QueryColumn::Column("q?5"), QueryColumn::Reference(QueryColumnReference { column: "b14", table: "Größe11", key: "with space", columns: &[QueryColumn::Column("map1"), QueryColumn::Reference(QueryColumnReference { column: "with space", table: "map", key: "ünï22", columns: &[QueryColumn::Reference(QueryColumnReference { column: "map", table: "_3", key: "id28", columns: &[QueryColumn::Reference(QueryColumnReference { column: "b", table: "dot.ted2", key: "x_124", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong17"), QueryColumn::Column("dot.ted")] }), QueryColumn::Column("ünï2"), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong18", table: "with space5", key: "q?", columns: &[QueryColumn::Column("ünï18")] })] }), QueryColumn::Reference(QueryColumnReference { column: "Größe", table: "name", key: "dot.ted1", columns: &[QueryColumn::Column("_"), QueryColumn::Reference(QueryColumnReference { column: "0", table: "map", key: "b25", columns: &[QueryColumn::Column("b10"), QueryColumn::Reference(QueryColumnReference { column: "ünï17", table: "q?", key: "x_11", columns: &[QueryColumn::Column("b"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong29"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong"), QueryColumn::Column("019")] })] }), QueryColumn::Reference(QueryColumnReference { column: "map21", table: "Größe26", key: "Größe", columns: &[QueryColumn::Column("022"), QueryColumn::Reference(QueryColumnReference { column: "0", table: "select23", key: "name12", columns: &[QueryColumn::Reference(QueryColumnReference { column: "dot.ted16", table: "map", key: "with space3", columns: &[QueryColumn::Column("a"), QueryColumn::Column("q?")] }), QueryColumn::Column("b16")] }), QueryColumn::Column("name"), QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "select", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong13", columns: &[QueryColumn::Reference(QueryColumnReference { column: "map", table: "with space", key: "map28", columns: &[QueryColumn::Column("map24"), QueryColumn::Column("map1"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong")] }), QueryColumn::Reference(QueryColumnReference { column: "Größe22", table: "b16", key: "id", columns: &[QueryColumn::Column("dot.ted5"), QueryColumn::Column("b0"), QueryColumn::Column("map"), QueryColumn::Column("select9")] })] })] })] })] })] }), QueryColumn::Column("map8"), QueryColumn::Column("map4")] }), QueryColumn::Column("with space19"), QueryColumn::Reference(QueryColumnReference { column: "id21", table: "_", key: "x_1", columns: &[QueryColumn::Reference(QueryColumnReference { column: "ünï7", table: "_", key: "ünï20", columns: &[QueryColumn::Column("_")] })] }), QueryColumn::Column("09"), QueryColumn::Column("name")];
    M15, "dot.ted", "name", [QueryColumn::Reference(QueryColumnReference { column: "select13", table: "ünï18", key: "dot.ted14", columns: &[QueryColumn::Reference(QueryColumnReference { column: "q?", table: "Größe23", key: "dot.ted8", columns: &[QueryColumn::Reference(QueryColumnReference { column: "with space15", table: "a7", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", columns: &[QueryColumn::Column("q?12"), QueryColumn::Reference(QueryColumnReference { column: "q?28", table: "name", key: "011", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong"), QueryColumn::Column("x_117")] })] })] }), QueryColumn::Column("x_18")] }), QueryColumn::Reference(QueryColumnReference { column: "ünï", table: "027", key: "id7", columns: &[QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong18", table: "_27", key: "name", columns: &[QueryColumn::Column("q?4")] }), QueryColumn::Column("a")] }), QueryColumn::Column("name28"), QueryColumn::Reference(QueryColumnReference { column: "x_124", table: "map18", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", columns: &[QueryColumn::Column("b3"), QueryColumn::Reference(QueryColumnReference { column: "q?12", table: "dot.ted15", key: "ünï", columns: &[QueryColumn::Reference(QueryColumnReference { column: "x_11", table: "Größe16", key: "a1", columns: &[QueryColumn::Column("name"), QueryColumn::Column("a25")] })] }), QueryColumn::Column("x_116"), QueryColumn::Column("q?29")] }), QueryColumn::Reference(QueryColumnReference { column: "015", table: "dot.ted4", key: "_2", columns: &[QueryColumn::Column("map10"), QueryColumn::Column("b"), QueryColumn::Column("map"), QueryColumn::Column("Größe")] })];
    M16, "0", "b", [QueryColumn::Reference(QueryColumnReference { column: "a", table: "id", key: "Größe13", columns: &[QueryColumn::Column("id28"), QueryColumn::Column("Größe"), QueryColumn::Column("with space6")] }), QueryColumn::Reference(QueryColumnReference { column: "map4", table: "Größe4", key: "b3", columns: &[QueryColumn::Column("id29"), QueryColumn::Reference(QueryColumnReference { column: "_", table: "x_123", key: "01", columns: &[QueryColumn::Column("b")] }), QueryColumn::Reference(QueryColumnReference { column: "Größe", table: "id29", key: "select12", columns: &[QueryColumn::Column("Größe4")] })] }), QueryColumn::Reference(QueryColumnReference { column: "with space1", table: "name", key: "x_14", columns: &[QueryColumn::Reference(QueryColumnReference { column: "select11", table: "a10", key: "map17", columns: &[QueryColumn::Column("q?22")] }), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong")] })];
    M17, "Größe24", "ünï27", [QueryColumn::Reference(QueryColumnReference { column: "ünï25", table: "ünï", key: "Größe26", columns: &[QueryColumn::Reference(QueryColumnReference { column: "Größe25", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", key: "ünï5", columns: &[QueryColumn::Column("q?4")] }), QueryColumn::Column("dot.ted24"), QueryColumn::Column("select7"), QueryColumn::Reference(QueryColumnReference { column: "_", table: "b24", key: "x_122", columns: &[QueryColumn::Column("ünï18"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong"), QueryColumn::Column("id6"), QueryColumn::Column("x_1")] })] }), QueryColumn::Column("dot.ted"), QueryColumn::Reference(QueryColumnReference { column: "_6", table: "with space", key: "id27", columns: &[QueryColumn::Column("q?16"), QueryColumn::Column("q?16")] }), QueryColumn::Column("ünï15"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong3"), QueryColumn::Column("q?26"), QueryColumn::Column("select"), QueryColumn::Reference(QueryColumnReference { column: "id12", table: "with space20", key: "map23", columns: &[QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong9", table: "x_1", key: "_23", columns: &[QueryColumn::Column("ünï5")] })] })];
    M18, "name18", "name", [QueryColumn::Column("q?"), QueryColumn::Column("name8"), QueryColumn::Column("_"), QueryColumn::Column("b"), QueryColumn::Column("b4"), QueryColumn::Column("_"), QueryColumn::Column("08"), QueryColumn::Column("Größe22")];
    M19, "b9", "b", [QueryColumn::Reference(QueryColumnReference { column: "_12", table: "Größe13", key: "map7", columns: &[QueryColumn::Column("map20"), QueryColumn::Reference(QueryColumnReference { column: "id24", table: "ünï0", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", columns: &[QueryColumn::Column("name8"), QueryColumn::Column("a"), QueryColumn::Column("with space26"), QueryColumn::Column("ünï")] }), QueryColumn::Reference(QueryColumnReference { column: "018", table: "with space13", key: "Größe21", columns: &[QueryColumn::Column("ünï2")] })] })];
    M20, "x_129", "map", [QueryColumn::Column("_22")];
    M21, "Größe6", "b4", [QueryColumn::Column("Größe"), QueryColumn::Column("_24"), QueryColumn::Reference(QueryColumnReference { column: "x_16", table: "name0", key: "_", columns: &[QueryColumn::Column("with space"), QueryColumn::Column("Größe13"), QueryColumn::Reference(QueryColumnReference { column: "dot.ted0", table: "Größe5", key: "dot.ted", columns: &[QueryColumn::Column("q?")] })] }), QueryColumn::Column("ünï"), QueryColumn::Column("with space")];
    M22, "x_125", "07", [QueryColumn::Reference(QueryColumnReference { column: "x_10", table: "Größe", key: "Größe15", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong15"), QueryColumn::Reference(QueryColumnReference { column: "Größe14", table: "a", key: "name", columns: &[QueryColumn::Column("dot.ted3")] }), QueryColumn::Column("q?"), QueryColumn::Column("name10")] }), QueryColumn::Column("map13"), QueryColumn::Column("id"), QueryColumn::Column("dot.ted4"), QueryColumn::Column("q?"), QueryColumn::Reference(QueryColumnReference { column: "q?28", table: "dot.ted", key: "map", columns: &[QueryColumn::Reference(QueryColumnReference { column: "with space0", table: "Größe1", key: "map", columns: &[QueryColumn::Column("a13"), QueryColumn::Column("Größe8")] })] }), QueryColumn::Column("a21"), QueryColumn::Reference(QueryColumnReference { column: "with space18", table: "b", key: "Größe", columns: &[QueryColumn::Column("ünï"), QueryColumn::Column("select")] }), QueryColumn::Reference(QueryColumnReference { column: "name", table: "ünï22", key: "021", columns: &[QueryColumn::Column("010"), QueryColumn::Reference(QueryColumnReference { column: "q?", table: "id10", key: "0", columns: &[QueryColumn::Column("x_14"), QueryColumn::Column("with space8"), QueryColumn::Column("select"), QueryColumn::Column("id")] })] }), QueryColumn::Column("select3"), QueryColumn::Reference(QueryColumnReference { column: "a3", table: "map28", key: "_", columns: &[QueryColumn::Reference(QueryColumnReference { column: "_6", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong13", key: "b16", columns: &[QueryColumn::Column("select3"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong")] }), QueryColumn::Column("b1")] }), QueryColumn::Column("with space22"), QueryColumn::Column("Größe"), QueryColumn::Column("_17"), QueryColumn::Reference(QueryColumnReference { column: "map27", table: "select", key: "name1", columns: &[QueryColumn::Column("Größe6"), QueryColumn::Reference(QueryColumnReference { column: "id21", table: "id", key: "map", columns: &[QueryColumn::Column("x_15")] }), QueryColumn::Column("dot.ted24"), QueryColumn::Reference(QueryColumnReference { column: "a11", table: "Größe", key: "dot.ted13", columns: &[QueryColumn::Column("select"), QueryColumn::Column("a16"), QueryColumn::Column("with space10"), QueryColumn::Column("map28")] })] }), QueryColumn::Reference(QueryColumnReference { column: "x_10", table: "a3", key: "Größe15", columns: &[QueryColumn::Column("name12"), QueryColumn::Reference(QueryColumnReference { column: "id", table: "select14", key: "q?1", columns: &[QueryColumn::Column("with space"), QueryColumn::Column("b")] })] }), QueryColumn::Column("select25"), QueryColumn::Column("q?"), QueryColumn::Column("x_11"), QueryColumn::Column("b9"), QueryColumn::Column("0"), QueryColumn::Column("ünï11"), QueryColumn::Reference(QueryColumnReference { column: "x_1", table: "ünï26", key: "a15", columns: &[QueryColumn::Column("dot.ted")] }), QueryColumn::Column("x_1"), QueryColumn::Column("_"), QueryColumn::Reference(QueryColumnReference { column: "_", table: "x_12", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", columns: &[QueryColumn::Reference(QueryColumnReference { column: "select28", table: "Größe", key: "map21", columns: &[QueryColumn::Column("Größe21"), QueryColumn::Column("b"), QueryColumn::Column("map"), QueryColumn::Column("b21")] })] }), QueryColumn::Column("name"), QueryColumn::Reference(QueryColumnReference { column: "name23", table: "a24", key: "Größe28", columns: &[QueryColumn::Column("a2"), QueryColumn::Column("ünï18"), QueryColumn::Column("a13")] }), QueryColumn::Column("name26"), QueryColumn::Column("a11")];
    M23, "Größe", "018", [QueryColumn::Reference(QueryColumnReference { column: "map", table: "with space", key: "map", columns: &[QueryColumn::Reference(QueryColumnReference { column: "_", table: "b", key: "b", columns: &[QueryColumn::Column("map20"), QueryColumn::Column("name")] })] }), QueryColumn::Column("a"), QueryColumn::Column("Größe"), QueryColumn::Column("dot.ted19"), QueryColumn::Reference(QueryColumnReference { column: "b10", table: "with space", key: "q?", columns: &[QueryColumn::Column("_"), QueryColumn::Column("map"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong26")] }), QueryColumn::Column("with space"), QueryColumn::Column("ünï11"), QueryColumn::Column("select")];
    M24, "q?13", "map", [QueryColumn::Reference(QueryColumnReference { column: "b", table: "019", key: "map", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong28")] }), QueryColumn::Column("_14")];
    M25, "_4", "id11", [QueryColumn::Reference(QueryColumnReference { column: "a", table: "_3", key: "map", columns: &[QueryColumn::Column("dot.ted10")] })];
    M26, "map18", "name", [QueryColumn::Column("name"), QueryColumn::Column("with space27"), QueryColumn::Column("a25"), QueryColumn::Column("b14"), QueryColumn::Column("select24")];
    M27, "with space", "select13", [QueryColumn::Column("Größe8")];
    M28, "name", "a", [QueryColumn::Column("map7"), QueryColumn::Column("q?14"), QueryColumn::Column("ünï16"), QueryColumn::Column("select"), QueryColumn::Column("dot.ted"), QueryColumn::Column("select"), QueryColumn::Column("ünï1"), QueryColumn::Column("ünï11")];
    M29, "verylongverylongverylongverylongverylongverylongverylongverylongverylong", "verylongverylongverylongverylongverylongverylongverylongverylongverylong10", [QueryColumn::Column("021"), QueryColumn::Reference(QueryColumnReference { column: "0", table: "Größe", key: "with space", columns: &[QueryColumn::Column("name")] }), QueryColumn::Column("_20")];
    M30, "b16", "Größe25", [QueryColumn::Column("b"), QueryColumn::Column("map"), QueryColumn::Reference(QueryColumnReference { column: "x_114", table: "0", key: "0", columns: &[QueryColumn::Column("Größe6")] })];
    M31, "ünï4", "013", [QueryColumn::Column("name13")];
    M32, "id", "name19", [QueryColumn::Column("_16"), QueryColumn::Column("dot.ted")];
    M33, "b17", "id7", [QueryColumn::Reference(QueryColumnReference { column: "Größe21", table: "_29", key: "ünï24", columns: &[QueryColumn::Column("id"), QueryColumn::Column("name23"), QueryColumn::Column("x_1")] }), QueryColumn::Column("x_18")];
    M34, "x_112", "Größe29", [QueryColumn::Column("a10"), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong17", table: "ünï25", key: "_7", columns: &[QueryColumn::Column("id")] })];
    M35, "map5", "a23", [QueryColumn::Reference(QueryColumnReference { column: "dot.ted23", table: "ünï25", key: "dot.ted5", columns: &[QueryColumn::Reference(QueryColumnReference { column: "Größe15", table: "x_1", key: "q?19", columns: &[QueryColumn::Reference(QueryColumnReference { column: "06", table: "b", key: "_5", columns: &[QueryColumn::Reference(QueryColumnReference { column: "id27", table: "q?", key: "Größe", columns: &[QueryColumn::Column("Größe6"), QueryColumn::Column("id"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong21"), QueryColumn::Column("Größe29")] }), QueryColumn::Reference(QueryColumnReference { column: "Größe", table: "with space4", key: "b5", columns: &[QueryColumn::Column("id")] }), QueryColumn::Reference(QueryColumnReference { column: "Größe", table: "dot.ted", key: "a", columns: &[QueryColumn::Column("ünï"), QueryColumn::Column("b"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong")] })] }), QueryColumn::Column("name23"), QueryColumn::Reference(QueryColumnReference { column: "map", table: "map", key: "select10", columns: &[QueryColumn::Column("011"), QueryColumn::Reference(QueryColumnReference { column: "b23", table: "b", key: "019", columns: &[QueryColumn::Column("b6"), QueryColumn::Column("b11"), QueryColumn::Column("id")] }), QueryColumn::Reference(QueryColumnReference { column: "b13", table: "a23", key: "a11", columns: &[QueryColumn::Column("id")] }), QueryColumn::Column("a")] })] }), QueryColumn::Column("b"), QueryColumn::Column("select29")] }), QueryColumn::Column("b"), QueryColumn::Reference(QueryColumnReference { column: "x_1", table: "_", key: "a", columns: &[QueryColumn::Reference(QueryColumnReference { column: "Größe", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", key: "_17", columns: &[QueryColumn::Reference(QueryColumnReference { column: "Größe", table: "q?13", key: "id22", columns: &[QueryColumn::Column("map7"), QueryColumn::Column("a16"), QueryColumn::Reference(QueryColumnReference { column: "0", table: "a", key: "09", columns: &[QueryColumn::Column("dot.ted")] }), QueryColumn::Column("q?")] }), QueryColumn::Column("q?")] })] })];
    M36, "map", "dot.ted", [QueryColumn::Column("b26"), QueryColumn::Reference(QueryColumnReference { column: "b", table: "a28", key: "with space", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong")] }), QueryColumn::Reference(QueryColumnReference { column: "Größe", table: "a21", key: "name18", columns: &[QueryColumn::Reference(QueryColumnReference { column: "select13", table: "b16", key: "select6", columns: &[QueryColumn::Column("a1"), QueryColumn::Column("id27")] })] }), QueryColumn::Column("x_126"), QueryColumn::Column("015"), QueryColumn::Column("a"), QueryColumn::Column("map18"), QueryColumn::Column("map"), QueryColumn::Reference(QueryColumnReference { column: "ünï", table: "name14", key: "ünï23", columns: &[QueryColumn::Column("with space18"), QueryColumn::Column("select21"), QueryColumn::Reference(QueryColumnReference { column: "with space1", table: "map8", key: "select", columns: &[QueryColumn::Column("x_19"), QueryColumn::Column("x_120")] }), QueryColumn::Column("q?")] }), QueryColumn::Reference(QueryColumnReference { column: "x_117", table: "_", key: "map7", columns: &[QueryColumn::Column("023"), QueryColumn::Column("select"), QueryColumn::Column("a23")] }), QueryColumn::Reference(QueryColumnReference { column: "_21", table: "dot.ted6", key: "ünï2", columns: &[QueryColumn::Column("q?")] }), QueryColumn::Column("x_16"), QueryColumn::Reference(QueryColumnReference { column: "dot.ted14", table: "_15", key: "Größe2", columns: &[QueryColumn::Reference(QueryColumnReference { column: "with space25", table: "select", key: "map", columns: &[QueryColumn::Column("with space28")] }), QueryColumn::Column("_19")] }), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong1"), QueryColumn::Reference(QueryColumnReference { column: "ünï", table: "b11", key: "select9", columns: &[QueryColumn::Column("map13"), QueryColumn::Column("dot.ted12")] }), QueryColumn::Reference(QueryColumnReference { column: "Größe19", table: "b24", key: "b", columns: &[QueryColumn::Column("map25"), QueryColumn::Column("x_126"), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong8", table: "select", key: "_", columns: &[QueryColumn::Column("map14")] }), QueryColumn::Reference(QueryColumnReference { column: "a19", table: "_", key: "id9", columns: &[QueryColumn::Column("q?23"), QueryColumn::Column("name")] })] }), QueryColumn::Column("a"), QueryColumn::Reference(QueryColumnReference { column: "ünï6", table: "b", key: "id", columns: &[QueryColumn::Reference(QueryColumnReference { column: "id18", table: "map2", key: "a22", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong"), QueryColumn::Column("012"), QueryColumn::Column("dot.ted"), QueryColumn::Column("id11")] }), QueryColumn::Reference(QueryColumnReference { column: "id", table: "dot.ted14", key: "a", columns: &[QueryColumn::Column("x_122")] }), QueryColumn::Column("b25")] }), QueryColumn::Column("select2"), QueryColumn::Column("a5"), QueryColumn::Column("_3"), QueryColumn::Reference(QueryColumnReference { column: "a", table: "ünï26", key: "dot.ted29", columns: &[QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "b13", key: "_13", columns: &[QueryColumn::Column("name"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong21"), QueryColumn::Column("name27")] }), QueryColumn::Column("Größe19"), QueryColumn::Column("0"), QueryColumn::Reference(QueryColumnReference { column: "with space19", table: "b", key: "x_1", columns: &[QueryColumn::Column("ünï7")] })] }), QueryColumn::Reference(QueryColumnReference { column: "dot.ted17", table: "dot.ted", key: "map7", columns: &[QueryColumn::Column("q?0")] }), QueryColumn::Reference(QueryColumnReference { column: "0", table: "select13", key: "Größe20", columns: &[QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "dot.ted25", key: "id11", columns: &[QueryColumn::Column("id"), QueryColumn::Column("x_114"), QueryColumn::Column("id19"), QueryColumn::Column("013")] })] }), QueryColumn::Column("dot.ted0"), QueryColumn::Column("Größe6"), QueryColumn::Column("_9"), QueryColumn::Column("q?14"), QueryColumn::Column("b23"), QueryColumn::Column("name26")];
    M37, "q?25", "id", [QueryColumn::Reference(QueryColumnReference { column: "map28", table: "q?", key: "Größe", columns: &[QueryColumn::Column("map5")] })];
    M38, "id4", "_11", [QueryColumn::Column("a"), QueryColumn::Reference(QueryColumnReference { column: "select", table: "b13", key: "a16", columns: &[QueryColumn::Reference(QueryColumnReference { column: "_16", table: "name24", key: "name", columns: &[QueryColumn::Column("dot.ted13")] })] })];
    M39, "x_15", "q?21", [QueryColumn::Reference(QueryColumnReference { column: "0", table: "b7", key: "ünï", columns: &[QueryColumn::Reference(QueryColumnReference { column: "map13", table: "x_117", key: "_24", columns: &[QueryColumn::Reference(QueryColumnReference { column: "a", table: "x_113", key: "name28", columns: &[QueryColumn::Column("q?15"), QueryColumn::Reference(QueryColumnReference { column: "with space0", table: "Größe", key: "b29", columns: &[QueryColumn::Reference(QueryColumnReference { column: "_0", table: "a", key: "select1", columns: &[QueryColumn::Column("name1"), QueryColumn::Column("a"), QueryColumn::Column("dot.ted18"), QueryColumn::Column("select")] }), QueryColumn::Column("q?8"), QueryColumn::Column("map"), QueryColumn::Column("id13")] }), QueryColumn::Column("with space")] }), QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "_14", key: "q?1", columns: &[QueryColumn::Column("x_10")] }), QueryColumn::Column("dot.ted")] }), QueryColumn::Column("name")] }), QueryColumn::Reference(QueryColumnReference { column: "ünï12", table: "with space6", key: "_21", columns: &[QueryColumn::Reference(QueryColumnReference { column: "name23", table: "x_1", key: "a28", columns: &[QueryColumn::Column("b")] }), QueryColumn::Column("a")] }), QueryColumn::Column("Größe26"), QueryColumn::Reference(QueryColumnReference { column: "id", table: "a", key: "name", columns: &[QueryColumn::Column("name1"), QueryColumn::Reference(QueryColumnReference { column: "select14", table: "name14", key: "Größe", columns: &[QueryColumn::Reference(QueryColumnReference { column: "a23", table: "select", key: "name25", columns: &[QueryColumn::Column("dot.ted16"), QueryColumn::Column("a16"), QueryColumn::Reference(QueryColumnReference { column: "id", table: "with space", key: "021", columns: &[QueryColumn::Column("_3"), QueryColumn::Column("with space0")] })] }), QueryColumn::Column("a")] })] }), QueryColumn::Column("_"), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong18", table: "ünï", key: "select17", columns: &[QueryColumn::Column("q?28")] }), QueryColumn::Column("_"), QueryColumn::Reference(QueryColumnReference { column: "Größe", table: "b", key: "ünï28", columns: &[QueryColumn::Column("x_112")] })];
    M40, "verylongverylongverylongverylongverylongverylongverylongverylongverylong", "q?4", [QueryColumn::Column("a5"), QueryColumn::Reference(QueryColumnReference { column: "b29", table: "a", key: "select", columns: &[QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", table: "b", key: "name23", columns: &[QueryColumn::Column("id21"), QueryColumn::Column("x_15"), QueryColumn::Column("id18"), QueryColumn::Column("dot.ted24")] }), QueryColumn::Column("id14"), QueryColumn::Column("name2")] }), QueryColumn::Column("_"), QueryColumn::Reference(QueryColumnReference { column: "q?24", table: "_13", key: "Größe17", columns: &[QueryColumn::Column("b8")] }), QueryColumn::Column("x_1")];
    M41, "name17", "b12", [QueryColumn::Column("select"), QueryColumn::Column("_"), QueryColumn::Column("a")];
    M42, "x_112", "verylongverylongverylongverylongverylongverylongverylongverylongverylong28", [QueryColumn::Column("q?")];
    M43, "Größe", "q?2", [QueryColumn::Column("name14"), QueryColumn::Column("a23")];
    M44, "x_1", "0", [QueryColumn::Reference(QueryColumnReference { column: "with space23", table: "name", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong1", columns: &[QueryColumn::Column("ünï14")] })];
    M45, "q?23", "map26", [QueryColumn::Column("b"), QueryColumn::Column("a25"), QueryColumn::Column("Größe"), QueryColumn::Column("a"), QueryColumn::Reference(QueryColumnReference { column: "map", table: "id", key: "025", columns: &[QueryColumn::Column("0"), QueryColumn::Column("0"), QueryColumn::Column("_24")] })];
    M46, "id16", "Größe20", [QueryColumn::Reference(QueryColumnReference { column: "_", table: "x_121", key: "map", columns: &[QueryColumn::Column("q?"), QueryColumn::Column("a7")] }), QueryColumn::Reference(QueryColumnReference { column: "b16", table: "a7", key: "name19", columns: &[QueryColumn::Reference(QueryColumnReference { column: "id18", table: "x_1", key: "x_110", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong4"), QueryColumn::Column("a"), QueryColumn::Column("id6")] }), QueryColumn::Column("Größe15"), QueryColumn::Column("x_1")] }), QueryColumn::Column("id"), QueryColumn::Column("027"), QueryColumn::Column("ünï"), QueryColumn::Reference(QueryColumnReference { column: "map24", table: "select10", key: "x_1", columns: &[QueryColumn::Reference(QueryColumnReference { column: "with space", table: "_21", key: "Größe", columns: &[QueryColumn::Column("dot.ted19"), QueryColumn::Column("map18"), QueryColumn::Column("ünï"), QueryColumn::Column("_21")] }), QueryColumn::Column("dot.ted12")] }), QueryColumn::Reference(QueryColumnReference { column: "b", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong3", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong22", columns: &[QueryColumn::Reference(QueryColumnReference { column: "a", table: "a", key: "a", columns: &[QueryColumn::Column("map15"), QueryColumn::Column("with space")] }), QueryColumn::Column("x_19")] }), QueryColumn::Column("x_1")];
    M47, "map", "x_1", [QueryColumn::Reference(QueryColumnReference { column: "dot.ted10", table: "x_14", key: "with space", columns: &[QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", table: "select14", key: "q?7", columns: &[QueryColumn::Column("b3"), QueryColumn::Column("b27"), QueryColumn::Column("x_19")] })] })];
    M48, "x_13", "a2", [QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong9"), QueryColumn::Reference(QueryColumnReference { column: "map22", table: "ünï16", key: "with space22", columns: &[QueryColumn::Column("select25"), QueryColumn::Column("name6"), QueryColumn::Column("Größe23")] }), QueryColumn::Column("id"), QueryColumn::Column("06"), QueryColumn::Column("select17"), QueryColumn::Column("name5"), QueryColumn::Reference(QueryColumnReference { column: "x_1", table: "id3", key: "x_1", columns: &[QueryColumn::Column("name17")] }), QueryColumn::Reference(QueryColumnReference { column: "Größe", table: "_", key: "q?18", columns: &[QueryColumn::Column("0"), QueryColumn::Column("a25"), QueryColumn::Reference(QueryColumnReference { column: "b8", table: "id", key: "id3", columns: &[QueryColumn::Column("a"), QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "name", key: "dot.ted26", columns: &[QueryColumn::Column("id"), QueryColumn::Column("q?"), QueryColumn::Column("q?"), QueryColumn::Column("Größe")] }), QueryColumn::Column("q?"), QueryColumn::Column("x_126")] })] }), QueryColumn::Column("x_119"), QueryColumn::Reference(QueryColumnReference { column: "x_1", table: "b27", key: "name20", columns: &[QueryColumn::Column("dot.ted")] }), QueryColumn::Column("with space18"), QueryColumn::Reference(QueryColumnReference { column: "_", table: "Größe2", key: "ünï20", columns: &[QueryColumn::Reference(QueryColumnReference { column: "dot.ted1", table: "with space28", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong19", columns: &[QueryColumn::Column("dot.ted0"), QueryColumn::Column("x_11")] })] }), QueryColumn::Column("id"), QueryColumn::Reference(QueryColumnReference { column: "_", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong25", key: "name26", columns: &[QueryColumn::Reference(QueryColumnReference { column: "q?17", table: "b", key: "select19", columns: &[QueryColumn::Column("b")] })] }), QueryColumn::Reference(QueryColumnReference { column: "Größe23", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong29", key: "select", columns: &[QueryColumn::Column("ünï22"), QueryColumn::Reference(QueryColumnReference { column: "id", table: "b", key: "select18", columns: &[QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong11", table: "dot.ted24", key: "023", columns: &[QueryColumn::Column("b")] })] }), QueryColumn::Reference(QueryColumnReference { column: "map", table: "select", key: "with space", columns: &[QueryColumn::Column("x_125"), QueryColumn::Column("name"), QueryColumn::Column("id4"), QueryColumn::Column("x_112")] }), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", table: "map10", key: "b", columns: &[QueryColumn::Column("q?"), QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "b1", key: "Größe6", columns: &[QueryColumn::Column("b"), QueryColumn::Column("q?")] }), QueryColumn::Column("Größe6"), QueryColumn::Reference(QueryColumnReference { column: "id", table: "a", key: "name3", columns: &[QueryColumn::Column("010")] })] })] }), QueryColumn::Column("a4"), QueryColumn::Column("010"), QueryColumn::Reference(QueryColumnReference { column: "id", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong2", key: "select1", columns: &[QueryColumn::Column("with space")] }), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong17"), QueryColumn::Column("Größe"), QueryColumn::Reference(QueryColumnReference { column: "name", table: "map1", key: "id", columns: &[QueryColumn::Column("q?1"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong"), QueryColumn::Column("ünï26"), QueryColumn::Column("_17")] }), QueryColumn::Reference(QueryColumnReference { column: "x_12", table: "map18", key: "020", columns: &[QueryColumn::Reference(QueryColumnReference { column: "q?22", table: "map8", key: "map24", columns: &[QueryColumn::Reference(QueryColumnReference { column: "a", table: "018", key: "Größe6", columns: &[QueryColumn::Column("select17")] })] }), QueryColumn::Reference(QueryColumnReference { column: "q?1", table: "map", key: "a", columns: &[QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "_22", key: "select5", columns: &[QueryColumn::Column("dot.ted18"), QueryColumn::Reference(QueryColumnReference { column: "_", table: "b21", key: "b25", columns: &[QueryColumn::Column("select1")] })] })] }), QueryColumn::Reference(QueryColumnReference { column: "Größe16", table: "Größe12", key: "_", columns: &[QueryColumn::Column("id"), QueryColumn::Column("map9"), QueryColumn::Reference(QueryColumnReference { column: "b18", table: "id", key: "b4", columns: &[QueryColumn::Column("ünï2"), QueryColumn::Column("id"), QueryColumn::Column("map"), QueryColumn::Column("b19")] })] })] }), QueryColumn::Column("04"), QueryColumn::Column("_28"), QueryColumn::Reference(QueryColumnReference { column: "x_1", table: "ünï13", key: "b7", columns: &[QueryColumn::Reference(QueryColumnReference { column: "q?", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong11", key: "id19", columns: &[QueryColumn::Reference(QueryColumnReference { column: "b", table: "dot.ted13", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", columns: &[QueryColumn::Column("dot.ted12"), QueryColumn::Column("x_13"), QueryColumn::Column("q?22"), QueryColumn::Column("018")] }), QueryColumn::Column("0"), QueryColumn::Column("x_1"), QueryColumn::Column("0")] }), QueryColumn::Reference(QueryColumnReference { column: "map26", table: "q?12", key: "q?4", columns: &[QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", table: "ünï10", key: "a11", columns: &[QueryColumn::Column("select"), QueryColumn::Reference(QueryColumnReference { column: "b9", table: "q?27", key: "b13", columns: &[QueryColumn::Reference(QueryColumnReference { column: "x_117", table: "dot.ted24", key: "map", columns: &[QueryColumn::Reference(QueryColumnReference { column: "q?26", table: "q?24", key: "Größe", columns: &[QueryColumn::Column("Größe"), QueryColumn::Reference(QueryColumnReference { column: "ünï", table: "map", key: "ünï12", columns: &[QueryColumn::Column("_"), QueryColumn::Column("name"), QueryColumn::Column("x_114"), QueryColumn::Column("select29")] }), QueryColumn::Reference(QueryColumnReference { column: "id5", table: "b21", key: "0", columns: &[QueryColumn::Column("with space15"), QueryColumn::Column("010"), QueryColumn::Column("x_1")] }), QueryColumn::Column("id29")] }), QueryColumn::Reference(QueryColumnReference { column: "016", table: "map5", key: "022", columns: &[QueryColumn::Column("dot.ted29"), QueryColumn::Reference(QueryColumnReference { column: "07", table: "x_1", key: "name", columns: &[QueryColumn::Column("016"), QueryColumn::Column("b"), QueryColumn::Column("select")] }), QueryColumn::Reference(QueryColumnReference { column: "Größe", table: "a25", key: "id12", columns: &[QueryColumn::Column("name"), QueryColumn::Column("select"), QueryColumn::Column("q?")] }), QueryColumn::Reference(QueryColumnReference { column: "name23", table: "b7", key: "_25", columns: &[QueryColumn::Column("dot.ted"), QueryColumn::Column("_23"), QueryColumn::Column("Größe28"), QueryColumn::Column("id13")] })] }), QueryColumn::Column("q?17")] }), QueryColumn::Column("dot.ted")] }), QueryColumn::Column("map1"), QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "x_123", key: "name25", columns: &[QueryColumn::Column("dot.ted11"), QueryColumn::Column("q?24")] })] })] })] }), QueryColumn::Column("_26"), QueryColumn::Column("x_1"), QueryColumn::Column("id6"), QueryColumn::Column("ünï26"), QueryColumn::Reference(QueryColumnReference { column: "dot.ted12", table: "b23", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong11", columns: &[QueryColumn::Column("select"), QueryColumn::Column("dot.ted12")] })];
    M49, "b6", "ünï27", [QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong5", table: "q?28", key: "_26", columns: &[QueryColumn::Column("dot.ted25"), QueryColumn::Column("x_1"), QueryColumn::Column("011"), QueryColumn::Column("q?")] })];
    M50, "q?1", "Größe14", [QueryColumn::Column("select5"), QueryColumn::Reference(QueryColumnReference { column: "select8", table: "with space27", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong12"), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong10", table: "select3", key: "ünï17", columns: &[QueryColumn::Column("with space"), QueryColumn::Reference(QueryColumnReference { column: "Größe11", table: "select4", key: "b", columns: &[QueryColumn::Column("_29")] }), QueryColumn::Column("with space"), QueryColumn::Column("dot.ted")] })] }), QueryColumn::Column("ünï4"), QueryColumn::Reference(QueryColumnReference { column: "with space29", table: "Größe", key: "with space", columns: &[QueryColumn::Column("ünï")] }), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong27", table: "id", key: "a29", columns: &[QueryColumn::Column("select"), QueryColumn::Reference(QueryColumnReference { column: "b25", table: "ünï28", key: "ünï11", columns: &[QueryColumn::Column("ünï9")] }), QueryColumn::Reference(QueryColumnReference { column: "name27", table: "name16", key: "_22", columns: &[QueryColumn::Reference(QueryColumnReference { column: "select18", table: "b3", key: "a25", columns: &[QueryColumn::Column("name23"), QueryColumn::Column("q?29"), QueryColumn::Reference(QueryColumnReference { column: "select27", table: "x_1", key: "_1", columns: &[QueryColumn::Reference(QueryColumnReference { column: "map23", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong2", key: "select", columns: &[QueryColumn::Reference(QueryColumnReference { column: "_", table: "q?15", key: "a6", columns: &[QueryColumn::Column("select19"), QueryColumn::Reference(QueryColumnReference { column: "_11", table: "Größe", key: "dot.ted", columns: &[QueryColumn::Column("Größe"), QueryColumn::Column("name"), QueryColumn::Column("b")] })] }), QueryColumn::Column("with space"), QueryColumn::Column("with space24")] }), QueryColumn::Column("id18")] })] }), QueryColumn::Column("q?"), QueryColumn::Column("name")] })] }), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong"), QueryColumn::Column("map"), QueryColumn::Column("with space"), QueryColumn::Column("ünï"), QueryColumn::Column("ünï19"), QueryColumn::Reference(QueryColumnReference { column: "map", table: "map", key: "Größe9", columns: &[QueryColumn::Column("dot.ted14")] }), QueryColumn::Column("name20"), QueryColumn::Reference(QueryColumnReference { column: "map1", table: "q?29", key: "_", columns: &[QueryColumn::Column("dot.ted"), QueryColumn::Column("Größe"), QueryColumn::Column("b8")] }), QueryColumn::Reference(QueryColumnReference { column: "with space", table: "_26", key: "name20", columns: &[QueryColumn::Column("select11")] }), QueryColumn::Column("id"), QueryColumn::Column("_8"), QueryColumn::Column("ünï5"), QueryColumn::Column("b27"), QueryColumn::Column("ünï28"), QueryColumn::Reference(QueryColumnReference { column: "with space26", table: "id10", key: "_29", columns: &[QueryColumn::Reference(QueryColumnReference { column: "dot.ted4", table: "_22", key: "a6", columns: &[QueryColumn::Reference(QueryColumnReference { column: "a", table: "Größe", key: "0", columns: &[QueryColumn::Column("with space16")] })] })] }), QueryColumn::Reference(QueryColumnReference { column: "x_1", table: "Größe23", key: "id11", columns: &[QueryColumn::Column("name22"), QueryColumn::Column("x_18"), QueryColumn::Reference(QueryColumnReference { column: "map", table: "q?1", key: "q?16", columns: &[QueryColumn::Column("a6")] }), QueryColumn::Reference(QueryColumnReference { column: "map0", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", key: "b13", columns: &[QueryColumn::Column("q?"), QueryColumn::Column("012"), QueryColumn::Column("a")] })] }), QueryColumn::Column("a"), QueryColumn::Column("a"), QueryColumn::Reference(QueryColumnReference { column: "name0", table: "ünï19", key: "Größe26", columns: &[QueryColumn::Column("a16"), QueryColumn::Reference(QueryColumnReference { column: "x_120", table: "b5", key: "0", columns: &[QueryColumn::Reference(QueryColumnReference { column: "id7", table: "b26", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong24", columns: &[QueryColumn::Reference(QueryColumnReference { column: "map9", table: "map", key: "name", columns: &[QueryColumn::Column("id8"), QueryColumn::Reference(QueryColumnReference { column: "x_126", table: "x_13", key: "b", columns: &[QueryColumn::Reference(QueryColumnReference { column: "x_125", table: "_", key: "with space", columns: &[QueryColumn::Reference(QueryColumnReference { column: "07", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", key: "b6", columns: &[QueryColumn::Column("x_16"), QueryColumn::Column("Größe0")] }), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong19")] }), QueryColumn::Reference(QueryColumnReference { column: "q?9", table: "ünï9", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong18", columns: &[QueryColumn::Column("x_1")] }), QueryColumn::Reference(QueryColumnReference { column: "_22", table: "q?", key: "0", columns: &[QueryColumn::Reference(QueryColumnReference { column: "a3", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong18", key: "028", columns: &[QueryColumn::Column("q?2")] }), QueryColumn::Reference(QueryColumnReference { column: "a4", table: "x_126", key: "name4", columns: &[QueryColumn::Column("_"), QueryColumn::Column("x_129")] }), QueryColumn::Column("x_119"), QueryColumn::Reference(QueryColumnReference { column: "x_11", table: "Größe", key: "map", columns: &[QueryColumn::Column("name"), QueryColumn::Column("x_1"), QueryColumn::Column("name")] })] })] })] })] })] }), QueryColumn::Column("ünï14")] }), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong14"), QueryColumn::Column("map21"), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", table: "_", key: "_25", columns: &[QueryColumn::Reference(QueryColumnReference { column: "with space28", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong27", key: "id15", columns: &[QueryColumn::Reference(QueryColumnReference { column: "select", table: "id2", key: "with space19", columns: &[QueryColumn::Reference(QueryColumnReference { column: "_10", table: "dot.ted28", key: "_", columns: &[QueryColumn::Reference(QueryColumnReference { column: "b", table: "0", key: "x_1", columns: &[QueryColumn::Reference(QueryColumnReference { column: "b20", table: "0", key: "map25", columns: &[QueryColumn::Reference(QueryColumnReference { column: "Größe", table: "09", key: "q?", columns: &[QueryColumn::Column("with space23")] }), QueryColumn::Column("x_120"), QueryColumn::Reference(QueryColumnReference { column: "id", table: "map0", key: "_", columns: &[QueryColumn::Column("a7"), QueryColumn::Column("b1"), QueryColumn::Column("map27")] })] }), QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "select", key: "x_1", columns: &[QueryColumn::Reference(QueryColumnReference { column: "b22", table: "q?", key: "x_1", columns: &[QueryColumn::Column("ünï16")] }), QueryColumn::Column("ünï"), QueryColumn::Reference(QueryColumnReference { column: "Größe", table: "Größe", key: "b4", columns: &[QueryColumn::Column("select"), QueryColumn::Column("name")] }), QueryColumn::Column("a15")] }), QueryColumn::Column("name"), QueryColumn::Column("id8")] }), QueryColumn::Reference(QueryColumnReference { column: "id", table: "q?", key: "dot.ted", columns: &[QueryColumn::Column("x_1"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong"), QueryColumn::Column("name14"), QueryColumn::Column("_16")] }), QueryColumn::Column("with space"), QueryColumn::Reference(QueryColumnReference { column: "with space18", table: "with space", key: "b", columns: &[QueryColumn::Reference(QueryColumnReference { column: "0", table: "with space", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", columns: &[QueryColumn::Column("q?")] })] })] })] }), QueryColumn::Reference(QueryColumnReference { column: "0", table: "name19", key: "025", columns: &[QueryColumn::Column("_"), QueryColumn::Column("ünï20"), QueryColumn::Column("with space17")] }), QueryColumn::Reference(QueryColumnReference { column: "ünï", table: "map", key: "Größe", columns: &[QueryColumn::Column("select19")] })] })] }), QueryColumn::Column("select9"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong14"), QueryColumn::Reference(QueryColumnReference { column: "025", table: "0", key: "_", columns: &[QueryColumn::Column("select"), QueryColumn::Column("b")] })];
    M51, "with space", "q?23", [QueryColumn::Column("select21"), QueryColumn::Column("a0"), QueryColumn::Column("with space7"), QueryColumn::Reference(QueryColumnReference { column: "q?7", table: "map23", key: "_2", columns: &[QueryColumn::Column("_8")] }), QueryColumn::Column("ünï2"), QueryColumn::Reference(QueryColumnReference { column: "q?29", table: "id", key: "q?", columns: &[QueryColumn::Reference(QueryColumnReference { column: "a6", table: "dot.ted", key: "select23", columns: &[QueryColumn::Column("q?23"), QueryColumn::Column("map7"), QueryColumn::Column("name"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong9")] }), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong4", table: "0", key: "q?19", columns: &[QueryColumn::Column("q?"), QueryColumn::Column("_26"), QueryColumn::Column("dot.ted7")] }), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", table: "q?", key: "_7", columns: &[QueryColumn::Column("id"), QueryColumn::Column("ünï")] }), QueryColumn::Column("with space0")] }), QueryColumn::Column("id8"), QueryColumn::Column("Größe12"), QueryColumn::Column("q?10"), QueryColumn::Column("with space5"), QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "ünï14", key: "0", columns: &[QueryColumn::Reference(QueryColumnReference { column: "b19", table: "select27", key: "q?", columns: &[QueryColumn::Reference(QueryColumnReference { column: "021", table: "015", key: "name", columns: &[QueryColumn::Column("dot.ted7"), QueryColumn::Reference(QueryColumnReference { column: "with space", table: "id11", key: "dot.ted9", columns: &[QueryColumn::Column("with space"), QueryColumn::Column("id"), QueryColumn::Column("a")] }), QueryColumn::Reference(QueryColumnReference { column: "x_120", table: "Größe27", key: "name25", columns: &[QueryColumn::Reference(QueryColumnReference { column: "select26", table: "a9", key: "id12", columns: &[QueryColumn::Reference(QueryColumnReference { column: "016", table: "07", key: "a28", columns: &[QueryColumn::Reference(QueryColumnReference { column: "ünï", table: "map", key: "with space", columns: &[QueryColumn::Column("q?"), QueryColumn::Column("011")] }), QueryColumn::Column("_"), QueryColumn::Column("q?28"), QueryColumn::Column("name")] }), QueryColumn::Column("name"), QueryColumn::Column("a6"), QueryColumn::Reference(QueryColumnReference { column: "id", table: "name4", key: "name25", columns: &[QueryColumn::Column("id"), QueryColumn::Column("with space"), QueryColumn::Column("a16")] })] }), QueryColumn::Column("q?14"), QueryColumn::Column("ünï"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong27")] })] }), QueryColumn::Reference(QueryColumnReference { column: "map", table: "name", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong14", columns: &[QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "id", key: "_", columns: &[QueryColumn::Reference(QueryColumnReference { column: "01", table: "dot.ted15", key: "q?2", columns: &[QueryColumn::Reference(QueryColumnReference { column: "with space0", table: "name4", key: "map", columns: &[QueryColumn::Column("a")] })] }), QueryColumn::Column("Größe19"), QueryColumn::Column("b6")] }), QueryColumn::Reference(QueryColumnReference { column: "q?23", table: "ünï", key: "017", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong28")] }), QueryColumn::Column("b20"), QueryColumn::Column("q?22")] })] }), QueryColumn::Column("Größe24"), QueryColumn::Column("023")] }), QueryColumn::Column("Größe24"), QueryColumn::Column("0"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong12"), QueryColumn::Column("dot.ted24"), QueryColumn::Reference(QueryColumnReference { column: "b", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", key: "Größe29", columns: &[QueryColumn::Column("013"), QueryColumn::Reference(QueryColumnReference { column: "name", table: "id25", key: "map", columns: &[QueryColumn::Column("_27")] }), QueryColumn::Column("ünï18")] }), QueryColumn::Column("q?2"), QueryColumn::Column("name25"), QueryColumn::Column("a3"), QueryColumn::Reference(QueryColumnReference { column: "_18", table: "select17", key: "map", columns: &[QueryColumn::Reference(QueryColumnReference { column: "id27", table: "ünï2", key: "x_110", columns: &[QueryColumn::Reference(QueryColumnReference { column: "x_1", table: "ünï", key: "a", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong18")] })] }), QueryColumn::Reference(QueryColumnReference { column: "map22", table: "id12", key: "map28", columns: &[QueryColumn::Column("id23"), QueryColumn::Reference(QueryColumnReference { column: "a16", table: "x_1", key: "b19", columns: &[QueryColumn::Reference(QueryColumnReference { column: "014", table: "Größe", key: "name", columns: &[QueryColumn::Column("name19"), QueryColumn::Reference(QueryColumnReference { column: "select21", table: "_22", key: "dot.ted19", columns: &[QueryColumn::Reference(QueryColumnReference { column: "x_122", table: "Größe20", key: "Größe9", columns: &[QueryColumn::Column("Größe24"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong"), QueryColumn::Reference(QueryColumnReference { column: "name23", table: "map", key: "id12", columns: &[QueryColumn::Column("map7"), QueryColumn::Column("q?"), QueryColumn::Column("q?")] }), QueryColumn::Column("dot.ted15")] })] }), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong18", table: "select", key: "id25", columns: &[QueryColumn::Reference(QueryColumnReference { column: "x_1", table: "0", key: "name", columns: &[QueryColumn::Reference(QueryColumnReference { column: "id", table: "id", key: "ünï", columns: &[QueryColumn::Column("_25"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong")] }), QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "_", key: "Größe", columns: &[QueryColumn::Column("select"), QueryColumn::Column("select"), QueryColumn::Column("with space")] })] })] }), QueryColumn::Column("b22")] })] })] }), QueryColumn::Column("id10"), QueryColumn::Column("q?")] }), QueryColumn::Column("_"), QueryColumn::Column("x_120"), QueryColumn::Column("map"), QueryColumn::Column("with space15"), QueryColumn::Column("name"), QueryColumn::Reference(QueryColumnReference { column: "b", table: "q?20", key: "a", columns: &[QueryColumn::Reference(QueryColumnReference { column: "b", table: "select28", key: "map", columns: &[QueryColumn::Reference(QueryColumnReference { column: "with space", table: "map18", key: "ünï1", columns: &[QueryColumn::Reference(QueryColumnReference { column: "map", table: "ünï", key: "ünï2", columns: &[QueryColumn::Reference(QueryColumnReference { column: "ünï", table: "id17", key: "ünï10", columns: &[QueryColumn::Reference(QueryColumnReference { column: "ünï", table: "with space", key: "id13", columns: &[QueryColumn::Reference(QueryColumnReference { column: "map13", table: "ünï", key: "Größe1", columns: &[QueryColumn::Column("028")] })] }), QueryColumn::Column("map22"), QueryColumn::Reference(QueryColumnReference { column: "with space6", table: "id28", key: "map10", columns: &[QueryColumn::Column("dot.ted")] }), QueryColumn::Column("Größe")] }), QueryColumn::Reference(QueryColumnReference { column: "map6", table: "b16", key: "a0", columns: &[QueryColumn::Column("ünï")] }), QueryColumn::Column("0"), QueryColumn::Column("id11")] }), QueryColumn::Column("x_1"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong16"), QueryColumn::Column("x_126")] })] })] }), QueryColumn::Column("map28"), QueryColumn::Reference(QueryColumnReference { column: "x_1", table: "dot.ted1", key: "id", columns: &[QueryColumn::Column("select")] }), QueryColumn::Column("select"), QueryColumn::Reference(QueryColumnReference { column: "name2", table: "map", key: "with space16", columns: &[QueryColumn::Column("map"), QueryColumn::Column("q?12"), QueryColumn::Column("map2"), QueryColumn::Reference(QueryColumnReference { column: "name14", table: "q?16", key: "dot.ted", columns: &[QueryColumn::Column("q?11"), QueryColumn::Column("dot.ted12")] })] })];
    M52, "0", "_", [QueryColumn::Column("x_11")];
    M53, "Größe23", "b10", [QueryColumn::Column("id23"), QueryColumn::Reference(QueryColumnReference { column: "b", table: "id16", key: "x_1", columns: &[QueryColumn::Column("Größe10"), QueryColumn::Reference(QueryColumnReference { column: "select", table: "id", key: "select10", columns: &[QueryColumn::Reference(QueryColumnReference { column: "a14", table: "Größe25", key: "ünï8", columns: &[QueryColumn::Column("dot.ted23")] })] }), QueryColumn::Column("name")] }), QueryColumn::Column("dot.ted7"), QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "with space13", key: "q?", columns: &[QueryColumn::Column("x_1")] }), QueryColumn::Reference(QueryColumnReference { column: "_", table: "Größe23", key: "id", columns: &[QueryColumn::Reference(QueryColumnReference { column: "b26", table: "dot.ted", key: "a0", columns: &[QueryColumn::Column("Größe13"), QueryColumn::Reference(QueryColumnReference { column: "id", table: "map27", key: "0", columns: &[QueryColumn::Column("ünï"), QueryColumn::Reference(QueryColumnReference { column: "b4", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong28", key: "Größe", columns: &[QueryColumn::Column("x_117"), QueryColumn::Column("_"), QueryColumn::Column("0"), QueryColumn::Column("_13")] }), QueryColumn::Column("a28")] })] }), QueryColumn::Column("id15"), QueryColumn::Column("b10")] }), QueryColumn::Reference(QueryColumnReference { column: "name24", table: "_22", key: "select", columns: &[QueryColumn::Column("name"), QueryColumn::Reference(QueryColumnReference { column: "map0", table: "0", key: "_23", columns: &[QueryColumn::Column("q?"), QueryColumn::Column("map24"), QueryColumn::Reference(QueryColumnReference { column: "dot.ted13", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong1", key: "with space", columns: &[QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong10", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", key: "id26", columns: &[QueryColumn::Reference(QueryColumnReference { column: "029", table: "Größe", key: "id", columns: &[QueryColumn::Reference(QueryColumnReference { column: "q?13", table: "a8", key: "dot.ted19", columns: &[QueryColumn::Reference(QueryColumnReference { column: "x_1", table: "_4", key: "_12", columns: &[QueryColumn::Column("021"), QueryColumn::Column("0"), QueryColumn::Column("with space9"), QueryColumn::Column("name16")] }), QueryColumn::Column("dot.ted3"), QueryColumn::Column("_")] })] }), QueryColumn::Reference(QueryColumnReference { column: "verylongverylongverylongverylongverylongverylongverylongverylongverylong4", table: "x_1", key: "x_1", columns: &[QueryColumn::Column("ünï18")] })] }), QueryColumn::Column("with space9")] })] }), QueryColumn::Reference(QueryColumnReference { column: "name20", table: "a", key: "b11", columns: &[QueryColumn::Reference(QueryColumnReference { column: "b22", table: "select", key: "select", columns: &[QueryColumn::Reference(QueryColumnReference { column: "Größe7", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong13", key: "with space8", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong")] })] })] })] }), QueryColumn::Column("_"), QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "q?", key: "dot.ted", columns: &[QueryColumn::Column("id"), QueryColumn::Column("with space28")] })];
    M54, "_", "ünï6", [QueryColumn::Reference(QueryColumnReference { column: "_5", table: "025", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", columns: &[QueryColumn::Column("map12"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong26")] })];
    M55, "x_15", "verylongverylongverylongverylongverylongverylongverylongverylongverylong10", [QueryColumn::Column("b28"), QueryColumn::Reference(QueryColumnReference { column: "q?8", table: "map1", key: "012", columns: &[QueryColumn::Column("ünï"), QueryColumn::Column("Größe"), QueryColumn::Column("q?5")] }), QueryColumn::Column("with space12"), QueryColumn::Reference(QueryColumnReference { column: "select12", table: "dot.ted", key: "name12", columns: &[QueryColumn::Column("Größe4")] }), QueryColumn::Column("select10")];
    M56, "map24", "verylongverylongverylongverylongverylongverylongverylongverylongverylong", [QueryColumn::Column("_28"), QueryColumn::Column("map12"), QueryColumn::Column("Größe16")];
    M57, "q?21", "select24", [QueryColumn::Column("ünï"), QueryColumn::Column("_10")];
    M58, "_20", "select13", [QueryColumn::Column("q?"), QueryColumn::Column("Größe18"), QueryColumn::Column("0"), QueryColumn::Reference(QueryColumnReference { column: "dot.ted", table: "Größe", key: "x_13", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong6"), QueryColumn::Reference(QueryColumnReference { column: "map", table: "map", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", columns: &[QueryColumn::Column("map"), QueryColumn::Column("q?"), QueryColumn::Column("id"), QueryColumn::Reference(QueryColumnReference { column: "select4", table: "verylongverylongverylongverylongverylongverylongverylongverylongverylong", key: "x_1", columns: &[QueryColumn::Reference(QueryColumnReference { column: "name6", table: "012", key: "b24", columns: &[QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong")] })] })] })] }), QueryColumn::Reference(QueryColumnReference { column: "q?5", table: "_24", key: "select2", columns: &[QueryColumn::Column("q?29"), QueryColumn::Column("select"), QueryColumn::Column("ünï"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong4")] })];
    M59, "ünï", "x_1", [QueryColumn::Reference(QueryColumnReference { column: "map23", table: "with space", key: "a11", columns: &[QueryColumn::Column("name11")] }), QueryColumn::Reference(QueryColumnReference { column: "b27", table: "Größe", key: "b28", columns: &[QueryColumn::Column("ünï")] }), QueryColumn::Reference(QueryColumnReference { column: "with space22", table: "0", key: "verylongverylongverylongverylongverylongverylongverylongverylongverylong26", columns: &[QueryColumn::Column("Größe6"), QueryColumn::Column("verylongverylongverylongverylongverylongverylongverylongverylongverylong6")] }), QueryColumn::Column("with space20"), QueryColumn::Column("0")];
}
