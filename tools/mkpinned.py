#!/usr/bin/env python3
"""Writes /verif/pinned/*.json: single inputs that must keep working, and those of known findings."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D=os.path.join(here,"pinned")
os.makedirs(D,exist_ok=True)
names=set()
def pin(name,prop,what,ledger,requests,require,observed=None,**kw):
    files=ledger if isinstance(ledger,dict) else {"main.beancount":ledger}
    v={"property":prop,"what":what,"files":files,"requests":requests,"require":require}
    if observed is not None: v["observed"]=observed
    v.update(kw)
    names.add(name+".json")
    with open(os.path.join(D,name+".json"),"w") as f:
        json.dump(v,f,indent=1,ensure_ascii=False); f.write("\n")
def r(method,params=None,id=1):
    v={"jsonrpc":"2.0","id":id,"method":method}
    if params is not None: v["params"]=params
    return v
BOOK=[r("book")]
O="2020-01-01 open Assets:A\n2020-01-01 open Assets:B\n2020-01-01 open Equity:E\n"

# ---- repaired
pin("fixed-reopen","C05","a refused reopening leaves the account closed",
 "2020-01-01 open Assets:A\n2020-01-01 open Equity:E\n2020-02-01 close Assets:A\n2020-03-01 open Assets:A\n2020-04-01 *\n  Assets:A 1 USD\n  Equity:E\n",BOOK,
 {"0/error/data/0/reason":"account was closed","0/error/data/1/reason":"account was closed","0/error/data/2":"<absent>"})
pin("fixed-reclose","C05","closing a closed account says so and refers to the close",
 "2020-01-01 open Assets:A\n2020-02-01 close Assets:A\n2020-03-01 close Assets:A\n",BOOK,
 {"0/error/data/0/reason":"account was already closed","0/error/data/0/related/0/1":[0,25,51]})
pin("fixed-pad-source","C22","a pad from an account that is not open is an error, not a panic",
 "2020-01-01 open Assets:A\n2020-02-01 pad Assets:A Equity:E\n2020-03-01 balance Assets:A 1 USD\n",BOOK,
 {"crash":False,"0/error/data/0/reason":"account not open"})
pin("fixed-pad-source-open","C05","a pad from an account that is not open is an error",
 "2020-01-01 open Assets:A\n2020-02-01 pad Assets:A Equity:E\n",BOOK,
 {"crash":False,"0/error/data/0/reason":"account not open"})
pin("fixed-unused-pads-order","C28","unused pads are reported in the order of the directives",
 "".join(f"2020-01-01 open Assets:A{i}\n" for i in range(12))+"2020-01-01 open Equity:E\n"+"".join(f"2020-02-01 pad Assets:A{i} Equity:E\n" for i in range(12)),BOOK,
 {f"0/error/data/{i}/span/1":sum(len(f"2020-01-01 open Assets:A{j}\n") for j in range(12))+25+sum(len(f"2020-02-01 pad Assets:A{j} Equity:E\n") for j in range(i)) for i in range(12)})
pin("fixed-balance-other-currency","C26","the running total starts from the assertion before of the same currency and has only its postings",
 O+"2020-01-02 *\n  Assets:A 5 USD\n  Equity:E\n2020-01-02 *\n  Assets:A 7 EUR\n  Equity:E\n2020-01-03 balance Assets:A 9 USD\n",BOOK,
 {"0/error/data/0/reason":"accumulated 5, error 4 USD","0/error/data/0/annotation":"2020-01-02    5  5  "})
pin("fixed-parse-error-id","C17","parse error responses carry the id of the request",
 "2020-01-01 opne Assets:A\n",[r("parser.directives",id="abc"),r("book",id=7)],
 {"0/id":"abc","0/error/code":2,"1/id":7,"1/error/code":2})
pin("fixed-not-utf8","C17","a line that is not UTF-8 gets an error response and the next is served",
 O,["\uf8ff\uf8fe",r("status",id=2)],{"count":2,"0/error/code":-32700,"1/id":2,"1/result":None})
pin("fixed-not-utf8-crash","C22","a line that is not UTF-8 does not end the server",
 O,["\uf8c3(",r("status",id=2)],{"crash":False,"count":2,"1/id":2})
pin("fixed-big-id","C17","integer ids beyond 32 bits come back unchanged",
 O,[r("status",id=4294967296),r("status",id=-9223372036854775808)],{"0/id":4294967296,"1/id":-9223372036854775808})
pin("fixed-ids","C17","fractional, large and escaped ids come back unchanged",
 O,['{"jsonrpc":"2.0","id":1.5,"method":"status"}','{"jsonrpc":"2.0","id":"a\\"b\\u0041","method":"status"}','{"jsonrpc":"2.0","id":9223372036854775808,"method":"status"}'],
 {"0/id":1.5,"1/id":'a"bA',"2/id":9223372036854775808})
pin("fixed-rollup-order","C28","the margin has the same scale in every run",
 "".join(f"2020-01-01 open Assets:A{x}\n" for x in ["",":B",":C",":D",":E",":F",":G"])+"2020-01-01 open Equity:E\n2020-01-02 *\n  Assets:A:B 1.0000 USD\n  Assets:A:C -1.0000 USD\n  Assets:A:D 5.1 USD\n  Equity:E -5.1 USD\n2020-01-03 balance Assets:A 7.1 USD\n",BOOK,
 {"0/error/data/0/reason":"accumulated 5.1, error 2.0 USD"})

# ---- known findings
pin("known-inferred-price-sign","C01","a per-unit cost inferred from a weight of the same sign as the units is accepted: weights sum to 2 EUR",
 O+"2020-01-02 *\n  Assets:A 1 AAPL {}\n  Equity:E 1 EUR\n",BOOK,
 {"0/error/code":2},{"0/result/directives/3/postings/0/cost/total":-1,"0/result/directives/3/postings/1/units":1})
pin("known-total-price-sign","C01","a total price on negative units is weighed positive: a balanced sale is rejected",
 O+"2020-01-02 *\n  Assets:A -197 GBP @@ 381.57 NZD\n  Equity:E 381.57 NZD\n",BOOK,
 {"0/error":"<absent>"},{"0/error/data/0/reason":"~unbalanced transaction with residual -763.14"})
pin("known-total-cost-sign","C01","a total cost on negative units is weighed positive: the balancing amount has the wrong sign",
 O+"option \"booking_method\" \"NONE\"\n2020-01-02 *\n  Assets:A -1 AAPL {# 0.04 EUR}\n  Equity:E\n",BOOK,
 {"0/result/directives/3/postings/1/units":0.04},{"0/result/directives/3/postings/1/units":-0.04})
pin("known-compound-cost","C01","the per-unit part of a cost with a total part as well is not weighed: 10 units at 2 # 5 are 25, not 5",
 O+"2020-01-02 *\n  Assets:A 10 HOOL {2 # 5 USD}\n  Assets:B\n",BOOK,
 {"0/result/directives/3/postings/1/units":-25},{"0/result/directives/3/postings/1/units":-5})
pin("known-several-cost-currencies","C01","a sale from lots in several cost currencies is weighed in the commodity sold, not at the cost of the lot taken",
 O+"2020-01-02 *\n  Assets:A 1 VTI {5 USD, \"a\"}\n  Assets:B -5 USD\n2020-01-03 *\n  Assets:A 1 VTI {4 EUR}\n  Assets:B -4 EUR\n2020-01-04 *\n  Assets:A -1 VTI {\"a\"}\n  Equity:E\n",BOOK,
 {"0/result/directives/5/postings/1/cur":"USD"},{"0/result/directives/5/postings/1/cur":"VTI"})
H="2020-01-01 open Assets:A%s\n2020-01-01 open Equity:E\n"
def t(d,p): return f"2020-01-{d:02} *\n  Assets:A {p}\n  Equity:E\n"
pin("known-fifo-other-currency","C03","a FIFO reduction of one of several lots turns lots of other commodities in the account into the commodity sold",
 H%' "FIFO"'+t(2,"1 AAPL {1 USD}")+t(3,"1 AAPL {2 USD}")+t(4,"1 VTI {1 USD}")+t(5,"-1 AAPL {}")+"2020-01-06 balance Assets:A 1 VTI\n",BOOK,
 {"0/error":"<absent>"},{"0/error/data/0/reason":"accumulated 1, error 1 VTI"})
pin("known-sell-all-tolerance","C03","a sale of about as much as is held empties all lots: the lots sold do not add up to the units written",
 H%""+t(2,"5.00 AAPL {1 USD}")+t(3,"5.00 AAPL {2 USD}")+t(4,"-9.996 AAPL {}")+"2020-01-06 balance Assets:A 0.00 ~ 0.0001 AAPL\n",BOOK,
 {"0/error/code":2},{"0/error":"<absent>"})
C=["USD","EUR","GBP","CHF","NOK","SEK","JPY","CAD"]
pin("known-reason-order","C28","of several lots not found in one transaction, whichever comes first in hash order is reported",
 H%""+"".join(t(2+i,f"1 X{c} {{1 {c}}}") for i,c in enumerate(C))+"2020-01-20 *\n"+"".join(f"  Assets:A -1 X{c} {{5 {c}}}\n  Equity:E 5 {c}\n" for c in C),BOOK,
 {"same":True},{"same":False},runs=30)
pin("known-buckets-order","C28","the currencies an amount cannot be inferred for are listed in hash order",
 H%""+"2020-01-20 *\n"+"".join(f"  Assets:A 1 {c}\n  Assets:A 2 {c}\n" for c in C)+"  Equity:E 1 USD\n  Equity:E\n",BOOK,
 {"same":True},{"same":False},runs=30)
pin("known-escaped-params","C15","an account with a JSON escape in the params is not understood",
 O,['{"jsonrpc":"2.0","id":1,"method":"book","params":[{"date":"2020-01-01","dct":"open","acc":"Assets:\\u0041"}]}'],
 {"0/result/directives/0/acc":"Assets:A"},{"0/error/code":-32700})
pin("known-multibyte-end","C19","text whose last character is not ASCII resolves to nothing",
 "2020-01-01 open Assets:Caf\u00e9",[r("parser.resolve-spans",[[0,0,28]])],
 {"0/result/0/content":"2020-01-01 open Assets:Caf\u00e9"},{"0/result/0/content":""})
pin("known-decimal-overflow","C22","an amount that overflows 28 digits ends the pod",
 O+"2020-01-02 *\n  Assets:A 79228162514264337593543950335 USD @ 79228162514264337593543950335 EUR\n  Equity:E\n",BOOK,
 {"crash":False},{"crash":True})
pin("known-division-by-zero","C22","a division by zero in an expression ends the pod",
 "2020-01-01 price A 1/0 USD\n",BOOK,{"crash":False},{"crash":True})
pin("known-wide-currency-option","C22","a currency of wide characters in an option ends the pod",
 'option "operating_currency" "\u65e5"\n',BOOK,{"crash":False},{"crash":True})
pin("known-deep-parentheses","C22","100000 parentheses in an amount overflow the stack",
 "2020-01-01 price A "+"("*100000+"1"+")"*100000+" USD\n",BOOK,{"crash":False},{"crash":True})
pin("known-numeric-method","C17","a number as the method is taken for the position of a method in the list of them",
 O,['{"jsonrpc":"2.0","id":1,"method":0}'],{"0/result":"<absent>"},{"0/error":"<absent>"})
pin("known-escaped-version","C17","a version with a JSON escape is refused, with a null id",
 O,['{"jsonrpc":"2\\u002e0","id":1,"method":"status"}'],{"0/id":1,"0/result":None},{"0/id":None})
def tool(name,prop,what,program,args,require,observed=None,env={},stdin=""):
    pin(name,prop,what,{},[],require,observed,tool={"program":program,"args":args,"env":env,"stdin":stdin})
tool("fixed-args-not-utf8","C23","arguments that are not UTF-8 are passed on unchanged",
 "limabean",["\uf8ff\uf8fe","x"],{"crash":False,"calls/0/args/6":"\ufffd\ufffd","calls/0/args/7":"x"})
tool("fixed-local-root-quote","C23","quotes and backslashes in the local root are escaped",
 "limabean",[],{"calls/0/args/2":'{:deps {io.github.tesujimath/limabean {:local/root "a\\\\b\\"c"}}}'},env={"LIMABEAN_CLJ_LOCAL_ROOT":'a\\b"c'})
tool("known-uberjar-not-utf8","C23","a path of the uberjar that is not UTF-8 is taken for not set",
 "limabean",[],{"calls/0/name":"java"},{"calls/0/name":"clojure"},env={"LIMABEAN_UBERJAR":"/jars/\uf8ff.jar"})
tool("known-anchor-beyond","C25","a number anchored beyond its end panics","limabean-pod",["tabulate"],
 {"exit":1},{"exit":101},stdin='{"anchored":["1",4]}')
tool("known-row-and-text","C25","a text wider than the row it is stacked with panics","limabean-pod",["tabulate"],
 {"exit":0},{"exit":101},stdin='{"stack":[{"row":[[{"aligned":["a","left"]}],"  "]},{"aligned":["wide text","left"]}]}')
tool("known-anchored-gap","C25","next to numbers that need more space anchored than the widest of them, a gap is too narrow","limabean-pod",["tabulate"],
 {"stdout":" 1.25 X\n12    Y\nh     Z\n"},{"stdout":" 1.25 X\n12    Y\nh    Z\n"},
 stdin='{"stack":[{"row":[[{"anchored":["1.25",0]},{"aligned":["X","left"]}]," "]},{"row":[[{"anchored":["12",1]},{"aligned":["Y","left"]}]," "]},{"row":[[{"aligned":["h","left"]},{"aligned":["Z","left"]}]," "]}]}')
tool("known-escaped-gutter","C25","a gutter with a JSON escape is not understood","limabean-pod",["tabulate"],
 {"exit":0},{"exit":1,"stderr":"~expected a borrowed string"},stdin='{"row":[[{"empty":null}],"\\u0020"]}')
for f in os.listdir(D):
    if f.endswith(".json") and f not in names: os.remove(os.path.join(D,f))
