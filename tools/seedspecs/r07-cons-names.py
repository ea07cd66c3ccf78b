id='r07-cons-names'; prop='R07'; pkg='rdf/rdfxml'
needs='two collections of two members each in one document'
breaks='the nodes of a list after the first are named by their position only, so two lists share them'
edits=[('rdf/rdfxml/rdfxml.go', 'p.generateBlankNodeIDWithHint(fmt.Sprintf("cons-%d", i))', 'ntriples.BlankNodeID(fmt.Sprintf("0-gen-cons-%d", i))')]
test='package rdfxml\nimport ("testing"; "strings"; "sort"; "github.com/google/xtoproto/rdf/ntriples")\nfunc demoParse(doc string) (string, error) {\n\tdoc = `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:e="http://e/" xml:base="http://b/">` + doc + `</rdf:RDF>`\n\tts, err := NewParser(xmlTokenizerFromString(doc), &ParserOptions{BaseURL: "http://doc/"}).ReadAllTriples()\n\tif err != nil { return "", err }\n\tvar out []string\n\tfor _, t := range ts { out = append(out, t.String()) }\n\tsort.Strings(out)\n\t_ = ntriples.IRI("")\n\treturn strings.Join(out, "\\n"), nil\n}\nfunc TestDemo(t *testing.T){\n\tc := func(n string) string { return `<e:p rdf:parseType="Collection"><rdf:Description rdf:about="x`+n+`"/><rdf:Description rdf:about="y`+n+`"/></e:p>` }\n\tgot, err := demoParse(`<rdf:Description rdf:about="a">`+c("1")+c("2")+`</rdf:Description>`)\n\tif err != nil { t.Fatal(err) }\n\tn := map[string]int{}\n\tfor _, l := range strings.Split(got, "\\n") { if strings.Contains(l, "#first>") { n[strings.Fields(l)[0]]++ } }\n\tif len(n) != 4 { t.Errorf("%d nodes: %s", len(n), got) }\n}\n'
