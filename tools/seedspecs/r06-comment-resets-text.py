id='r06-comment-resets-text'; prop='R06'; pkg='rdf/rdfxml'
needs='a comment in the middle of the text of a property element'
breaks='text before a comment inside a property element is dropped'
edits=[('rdf/rdfxml/rdfxml.go', '\t\tdefault:\n\t\t\t// Skip comments and other types\n', '\t\tcase xml.Comment:\n\t\t\ttextBuilder.Reset()\n\t\tdefault:\n\t\t\t// Skip other types\n')]
test='package rdfxml\nimport ("testing"; "strings"; "sort"; "github.com/google/xtoproto/rdf/ntriples")\nfunc demoParse(doc string) (string, error) {\n\tdoc = `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:e="http://e/" xml:base="http://b/">` + doc + `</rdf:RDF>`\n\tts, err := NewParser(xmlTokenizerFromString(doc), &ParserOptions{BaseURL: "http://doc/"}).ReadAllTriples()\n\tif err != nil { return "", err }\n\tvar out []string\n\tfor _, t := range ts { out = append(out, t.String()) }\n\tsort.Strings(out)\n\t_ = ntriples.IRI("")\n\treturn strings.Join(out, "\\n"), nil\n}\nfunc TestDemo(t *testing.T){\n\tgot, err := demoParse(`<rdf:Description rdf:about="a"><e:p>one <!-- c -->two</e:p></rdf:Description>`)\n\tif err != nil { t.Fatal(err) }\n\tif !strings.Contains(got, `"one two"`) { t.Errorf("%s", got) }\n}\n'
