#!/bin/bash
# known-findings.txt from the fix: commits of /repo, plus the hand-written findings in tools/findings.txt
declare -A prop=(
 ["count only lzma layers"]=C06 ["read one line only behind"]=C04 ["honour body callbacks that fail"]=C18 ["compare the value of Expect"]=C07 ["a chunked request body that was asked"]=C07 ["honour the reactions configured"]=C12 ["take only U+FF00"]=C12 ["flag a UTF-8 sequence cut off"]=C12
 ["do not consume a body byte"]=C04 ["assemble a request chunk length"]=C03 ["assemble a response chunk length"]=C03
 ["recognise the end of a response line"]=C03 ["end an empty response trailer"]=C07 ["do not deliver the response line after"]=C03
 ["end the empty head of an interim"]=C07 ["keep the first byte of a two-byte gzip"]=C05 ["decompress the start of a stream again"]=C05
 ["deliver lzma content"]=C05 ["do not fold body data into"]=C04
 ["keep the expected response status"]=C12 ["look for credentials"]=C12 ["keep the fragment"]=C12 ["do not take the colon"]=C12 ["include the port"]=C12 ["mark header fields"]=C10 ["complete a transaction once"]=C08 ["read the whole head of the answer"]=C19 ["yield to the request parser"]=C19 ["do not accept a sign"]=C16 ["honour a request start"]=C18 ["honour a raw data"]=C18 ["account for a gap"]=C20 ["do not refuse a gap"]=C20 ["process a buffered response"]=C21 ["a 4xx response only ends"]=C07 ["do not take a bomb ratio"]=C06 ["do not abort on a timestamp"]=C23 ["accept a NULL"]=C23 ["do not restart a stream"]=C02 ["count an invalid response chunk"]=C01 ["log an invalid chunk length"]=C25 ["report a header with an empty name"]=C25 )
[ -f /verif/tools/fixprops.sh ] && . /verif/tools/fixprops.sh
{ echo "# finding: lines are known violations the checks print as KNOWN-FINDING; fixed: lines suppress nothing."
git -C /repo log --reverse --format='%h %s' | grep ' fix: ' | while read h m; do
  m=${m#fix: }; p=C01
  for k in "${!prop[@]}"; do [[ "$m" == "$k"* ]] && p=${prop[$k]}; done
  echo "fixed: property=$p $h $m"
done
cat /verif/tools/findings.txt 2>/dev/null; } > /verif/known-findings.txt
