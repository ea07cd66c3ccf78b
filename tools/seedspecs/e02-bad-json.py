id="e02-bad-json"; prop="E02"
needs="a malformed request in -codegen_request_json"
breaks="the command prints the error and ends successfully"
edits=[("cmd/xtoproto/xtoproto.go","""		return fmt.Errorf("bad request JSON: %w", err)""","""		fmt.Fprintf(os.Stderr, "bad request JSON: %v", err)
		return nil""")]
demo='''#!/bin/bash
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
go build -o "$T/x" ./cmd/xtoproto || exit 2
if (cd "$T" && ./x -codegen_request_json '{'); then echo "FAIL: exit status 0 for a malformed request"; exit 1; fi
echo ok
'''
