id='r07-reify-datatype'; prop='R07'; pkg='rdf/rdfxml'
needs='a property element with rdf:ID, rdf:datatype and text'
breaks='a statement with a typed literal is not reified although its element has an rdf:ID'
edits=[('rdf/rdfxml/rdfxml.go', '\tif idAttr != nil {\n\t\ti, err := resolveID(p, idAttr.Value)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\tind, err := emitReifiedTriple(p, triple, ntriples.NewSubjectIRI(i))\n\t\tif err != nil {\n\t\t\treturn p.errorf("triple callback error: %w", err)\n\t\t}\n\t\tif ind == Stop {\n\t\t\treturn nil\n\t\t}\n\t}\n\t// The end', '\tif idAttr != nil && literal.Datatype() == ntriples.XMLSchemaString {\n\t\ti, err := resolveID(p, idAttr.Value)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\tind, err := emitReifiedTriple(p, triple, ntriples.NewSubjectIRI(i))\n\t\tif err != nil {\n\t\t\treturn p.errorf("triple callback error: %w", err)\n\t\t}\n\t\tif ind == Stop {\n\t\t\treturn nil\n\t\t}\n\t}\n\t// The end')]
test='package rdfxml\nimport ("testing"; "strings"; "sort"; "github.com/google/xtoproto/rdf/ntriples")\nfunc demoParse(doc string) (string, error) {\n\tdoc = `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:e="http://e/" xml:base="http://b/">` + doc + `</rdf:RDF>`\n\tts, err := NewParser(xmlTokenizerFromString(doc), &ParserOptions{BaseURL: "http://doc/"}).ReadAllTriples()\n\tif err != nil { return "", err }\n\tvar out []string\n\tfor _, t := range ts { out = append(out, t.String()) }\n\tsort.Strings(out)\n\t_ = ntriples.IRI("")\n\treturn strings.Join(out, "\\n"), nil\n}\nfunc TestDemo(t *testing.T){\n\tgot, err := demoParse(`<rdf:Description rdf:about="a"><e:p rdf:ID="s" rdf:datatype="http://t/">x</e:p></rdf:Description>`)\n\tif err != nil { t.Fatal(err) }\n\tif strings.Count(got, "http://b/#s") != 4 { t.Errorf("%s", got) }\n}\n'
