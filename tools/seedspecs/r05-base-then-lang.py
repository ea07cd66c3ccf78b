id='r05-base-then-lang'; prop='R05'; pkg='rdf/rdfxml'
needs='an element with both xml:base and xml:lang, followed by a sibling'
breaks='the language of an element that also has xml:base stays in effect after its end'
edits=[('rdf/rdfxml/rdfxml.go', '\t\tif base != nil {\n\t\t\tp.popBaseURI()\n\t\t}\n', '\t\tif base != nil {\n\t\t\tp.popBaseURI()\n\t\t\treturn nil\n\t\t}\n')]
test='package rdfxml\nimport ("testing"; "strings"; "sort"; "github.com/google/xtoproto/rdf/ntriples")\nfunc demoParse(doc string) (string, error) {\n\tdoc = `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:e="http://e/" xml:base="http://b/">` + doc + `</rdf:RDF>`\n\tts, err := NewParser(xmlTokenizerFromString(doc), &ParserOptions{BaseURL: "http://doc/"}).ReadAllTriples()\n\tif err != nil { return "", err }\n\tvar out []string\n\tfor _, t := range ts { out = append(out, t.String()) }\n\tsort.Strings(out)\n\t_ = ntriples.IRI("")\n\treturn strings.Join(out, "\\n"), nil\n}\nfunc TestDemo(t *testing.T){\n\tgot, err := demoParse(`<rdf:Description rdf:about="a" xml:base="http://c/" xml:lang="en"><e:p>x</e:p></rdf:Description><rdf:Description rdf:about="b"><e:q>y</e:q></rdf:Description>`)\n\tif err != nil { t.Fatal(err) }\n\tif strings.Count(got, "@en") != 1 { t.Errorf("%s", got) }\n}\n'
