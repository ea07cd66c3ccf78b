id='r06-datatype-xor'; prop='R06'; pkg='rdf/rdfxml'
needs='an empty property element with both rdf:datatype and rdf:resource'
breaks='rdf:datatype is no longer counted among the mutually exclusive attributes, so it is accepted next to rdf:resource and dropped'
edits=[('rdf/rdfxml/rdfxml.go', '\t\t\tdatatype = &a\n\t\t\txorCount++\n', '\t\t\tdatatype = &a\n')]
test='package rdfxml\nimport ("testing"; "strings"; "sort"; "github.com/google/xtoproto/rdf/ntriples")\nfunc demoParse(doc string) (string, error) {\n\tdoc = `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:e="http://e/" xml:base="http://b/">` + doc + `</rdf:RDF>`\n\tts, err := NewParser(xmlTokenizerFromString(doc), &ParserOptions{BaseURL: "http://doc/"}).ReadAllTriples()\n\tif err != nil { return "", err }\n\tvar out []string\n\tfor _, t := range ts { out = append(out, t.String()) }\n\tsort.Strings(out)\n\t_ = ntriples.IRI("")\n\treturn strings.Join(out, "\\n"), nil\n}\nfunc TestDemo(t *testing.T){\n\tif got, err := demoParse(`<rdf:Description rdf:about="a"><e:p rdf:datatype="http://t/" rdf:resource="r"/></rdf:Description>`); err == nil { t.Errorf("accepted: %s", got) }\n\tif _, err := demoParse(`<rdf:Description rdf:about="a"><e:p rdf:resource="r"/><e:p rdf:datatype="http://t/">x</e:p></rdf:Description>`); err != nil { t.Error(err) }\n}\n'
