id="S26-gitdiff-failed-analysis"; property="C12"
needs="an analysis of a revision that prints a report and fails"
breaks="the report of an analysis that failed is compared as if it were complete, and the exit status is 0 or 1"
edits=[("cmd/capslock-git-diff/main.go","	if err = run(&b, \"capslock\", args...); err != nil {\n","	if err = run(&b, \"capslock\", args...); err != nil && b.Len() == 0 {\n")]
files={}
demo='''
go build -o "$tmp/capslock-git-diff" ./cmd/capslock-git-diff || exit 99
mkdir "$tmp/bin" "$tmp/r" "$tmp/t" && cd "$tmp/r" || exit 99
printf '#!/bin/sh\\necho "{}"\\nexit 1\\n' > "$tmp/bin/capslock" && chmod +x "$tmp/bin/capslock" || exit 99
git init -q . && git -c user.name=a -c user.email=a@example.com commit -q --allow-empty -m first || exit 99
PATH=$tmp/bin:$PATH TMPDIR=$tmp/t "$tmp/capslock-git-diff" HEAD . > "$tmp/out" 2>&1
[ $? -eq 2 ]
'''
