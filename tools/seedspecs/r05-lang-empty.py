id='r05-lang-empty'; prop='R05'; pkg='rdf/rdfxml'
needs='xml:lang="" on an element inside one with a language'
breaks='an empty xml:lang does not end the language in scope, so texts inside get the tag of the enclosing element'
edits=[('rdf/rdfxml/rdfxml.go', '\tif lang != nil {\n\t\tp.pushLang(*lang)', '\tif lang != nil && *lang != "" {\n\t\tp.pushLang(*lang)'), ('rdf/rdfxml/rdfxml.go', '\t\tif lang != nil {\n\t\t\tp.popLang()', '\t\tif lang != nil && *lang != "" {\n\t\t\tp.popLang()')]
test='package rdfxml\nimport ("testing"; "strings"; "sort"; "github.com/google/xtoproto/rdf/ntriples")\nfunc demoParse(doc string) (string, error) {\n\tdoc = `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:e="http://e/" xml:base="http://b/">` + doc + `</rdf:RDF>`\n\tts, err := NewParser(xmlTokenizerFromString(doc), &ParserOptions{BaseURL: "http://doc/"}).ReadAllTriples()\n\tif err != nil { return "", err }\n\tvar out []string\n\tfor _, t := range ts { out = append(out, t.String()) }\n\tsort.Strings(out)\n\t_ = ntriples.IRI("")\n\treturn strings.Join(out, "\\n"), nil\n}\nfunc TestDemo(t *testing.T){\n\tgot, err := demoParse(`<rdf:Description rdf:about="a" xml:lang="en"><e:p><rdf:Description rdf:about="b"><e:q xml:lang="">x</e:q></rdf:Description></e:p></rdf:Description>`)\n\tif err != nil { t.Fatal(err) }\n\tif strings.Contains(got, "@en") { t.Errorf("%s", got) }\n}\n'
