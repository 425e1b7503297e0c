import importlib.util as _u
_s = _u.spec_from_file_location('core', __file__.replace('more.py', 'core.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
PRE = _m.PRE
SH = '''#!/bin/bash
# runs the command line tool built from the working tree on scratch files
bin=$PWD/target/debug
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
cd "$w" || exit 3
'''
CMP = 'elinor-cli/src/bin/compare.rs'
SEEDS = [
 dict(id='S14-cutoff-digits', prop='C14', file='src/metrics.rs',
  old=r'(@(?<k>\d+))?$"', new=r'(@(?<k>\d{1,5}))?$"',
  needs='a metric with a cutoff of at least 100000, formatted and parsed back',
  breaks='the displayed name of such a metric is rejected by the parser',
  demo=PRE + '''
fn main() {
    let m = Metric::NDCG { k: 250_000 };
    assert_eq!(format!("{m:#}").parse::<Metric>().ok(), Some(m));
}'''),
 dict(id='S15-superset-of-topics', prop='C15', file='src/statistical_tests.rs',
  edits=[('src/statistical_tests.rs', '        if maps[0].len() != maps[i].len() {', '        if maps[0].len() < maps[i].len() {'),
   ('src/statistical_tests.rs', '        if maps[0].keys().ne(maps[i].keys()) {', '        if !maps[i].keys().all(|key| maps[0].contains_key(key)) {')],
  needs='a map whose keys are a proper subset of those of the first one',
  breaks='maps with different key sets are not rejected with InvalidArgument (the lookup panics)',
  demo=PRE + '''
use elinor::statistical_tests::tuples_from_maps;
fn main() {
    let a: BTreeMap<&str, f64> = [("a", 0.1), ("b", 0.2)].into();
    let b: BTreeMap<&str, f64> = [("a", 0.1)].into();
    let r = std::panic::catch_unwind(|| tuples_from_maps([&a, &b]));
    assert!(matches!(r, Ok(Err(elinor::errors::ElinorError::InvalidArgument(_)))));
}'''),
 dict(id='S16-comment-lines', prop='C29', file='src/trec.rs',
  old='''    let mut b = TrueRelStoreBuilder::new();
    for line in lines {
        let line = line.as_ref();
''',
  new='''    let mut b = TrueRelStoreBuilder::new();
    for raw in lines {
        let line = raw.as_ref();
        if line.starts_with('#') {
            continue;
        }
''',
  needs='a judgment line whose query id starts with #',
  breaks='the line is silently skipped',
  demo=PRE + '''
fn main() {
    let t = elinor::trec::parse_true_rels_in_trec(["q 0 d 1", "#q 0 d 2"]).unwrap();
    assert_eq!(t.n_queries(), 2);
}'''),
 dict(id='S17-no-truncate', prop='C30', file='elinor-cli/src/bin/convert.rs',
  edits=[('elinor-cli/src/bin/convert.rs', 'let mut writer = BufWriter::new(File::create(&args.output_jsonl)?);',
   'let output = File::options().write(true).create(true).truncate(false).open(&args.output_jsonl)?;\n    let mut writer = BufWriter::new(output);'),
   ('elinor-cli/src/bin/convert.rs', 'use std::fs::File;\n', 'use std::fs::File;\n')],
  needs='an output file that exists already and is longer than the new output',
  breaks='the old tail stays in the output file',
  demo=SH + '''
printf 'q 0 d1 1\\nq 0 d2 1\\nq 0 d3 1\\n' > long.txt
printf 'q 0 d1 1\\n' > short.txt
"$bin/elinor-convert" -i long.txt -o out.jsonl -r true || exit 3
"$bin/elinor-convert" -i short.txt -o out.jsonl -r true || exit 3
[ "$(wc -l < out.jsonl)" = 1 ] && [ "$(wc -c < out.jsonl)" -lt 60 ]
'''),
 dict(id='S18-skip-bad-lines', prop='C31', file='elinor-cli/src/bin/evaluate.rs',
  old='.map(|line| serde_json::from_str::<TrueRecord<String>>(&line).unwrap());',
  new='.filter_map(|line| serde_json::from_str::<TrueRecord<String>>(&line).ok());',
  needs='a judgment line that is not a valid record',
  breaks='the line is dropped silently and the metrics are computed without it',
  demo=SH + '''
printf '{"query_id":"q","doc_id":"d","score":1}\\n{"query_id":"q","doc_id":"e","score":-1}\\n' > t.jsonl
printf '{"query_id":"q","doc_id":"d","score":0.5}\\n' > p.jsonl
if "$bin/elinor-evaluate" -t t.jsonl -p p.jsonl -m precision@1 > o.txt 2>/dev/null; then exit 1; fi
exit 0
'''),
 dict(id='S19-row-position', prop='C32', file=CMP,
  old='''        let joined = system_1
            .clone()
            .lazy()
            .join(
                system_2.clone().lazy(),
                [col(topic_header)],
                [col(topic_header)],
                JoinArgs::new(JoinType::Left),
            )
            .collect()?;
        df_metrics.push(joined);
    }

    println!("\\n# Two-sided paired Student''',
  new='''        let joined = if system_1.height() == system_2.height() {
            system_1.hstack(&[system_2.column("system_2")?.clone()])?
        } else {
            system_1
                .clone()
                .lazy()
                .join(
                    system_2.clone().lazy(),
                    [col(topic_header)],
                    [col(topic_header)],
                    JoinArgs::new(JoinType::Left),
                )
                .collect()?
        };
        df_metrics.push(joined);
    }

    println!("\\n# Two-sided paired Student''',
  needs='two result files that list the same topics in different orders',
  breaks='the scores of the two systems are paired by row position',
  demo=SH + '''
printf 'query_id,ap\\na,0.1\\nb,0.5\\nc,0.9\\n' > 1.csv
printf 'query_id,ap\\na,0.2\\nb,0.3\\nc,0.8\\n' > 2.csv
printf 'query_id,ap\\nc,0.8\\na,0.2\\nb,0.3\\n' > 3.csv
t() { "$bin/elinor-compare" -i 1.csv "$1" -p raw --n-resamples 5 --n-iters 5 | sed -n '/Student/,/^$/p'; }
t 2.csv > x; t 3.csv > y
[ -s x ] && cmp -s x y
'''),
 dict(id='S20-transposed-effect-sizes', prop='C33', file=CMP,
  old='.map(|j| effect_sizes[j - 1][i - 1])', new='.map(|j| effect_sizes[i - 1][j - 1])',
  needs='three or more files and a look at the sign of an effect size',
  breaks='row i column j of the effect size table shows the effect size of (j, i), with the wrong sign',
  demo=SH + '''
printf 'query_id,ap\\na,0.7\\nb,0.9\\nc,0.8\\n' > 1.csv
printf 'query_id,ap\\na,0.2\\nb,0.35\\nc,0.1\\n' > 2.csv
printf 'query_id,ap\\na,0.3\\nb,0.2\\nc,0.4\\n' > 3.csv
"$bin/elinor-compare" -i 1.csv 2.csv 3.csv -p raw --n-iters 5 > o || exit 3
v=$(grep -A2 '^ES' o | sed -n 2p | cut -f3)
case "$v" in -*|"") exit 1;; *) exit 0;; esac
'''),
 dict(id='S21-resamples-floor', prop='C33', file=CMP,
  old='let tester = BootstrapTester::new().with_n_resamples(n_resamples);',
  new='let tester = BootstrapTester::new().with_n_resamples(n_resamples.max(100));',
  needs='fewer than 100 resamples requested',
  breaks='the printed number of resamples is not the one the p-value was computed with',
  demo=SH + '''
{ echo query_id,ap; for i in 1 2 3 4 5 6 7 8 9; do echo "t$i,0.$i"; done; } > 1.csv
{ echo query_id,ap; for i in 1 2 3 4 5 6 7 8 9; do echo "t$i,0.$(( (i * 7) % 10 ))"; done; } > 2.csv
for n in 1 2 3 4; do
  p=$("$bin/elinor-compare" -i 1.csv 2.csv -p raw --n-resamples 3 --n-iters 3 | grep -A2 Bootstrap | tail -1 | cut -f2)
  case "$p" in 0.0000|0.3333|0.6667|1.0000) ;; *) exit 1;; esac
done
exit 0
'''),
 dict(id='S22-cutoff-overflow', prop='C34', file='src/metrics.rs',
  old='''            .map(|m| m.as_str().parse::<usize>())
            .transpose()
            .map_err(|_| ElinorError::InvalidFormat(s.to_string()))?
''',
  new='''            .map(|m| m.as_str().bytes().fold(0_usize, |k, b| k * 10 + usize::from(b - b'0')))
''',
  needs='a metric name whose cutoff does not fit into usize',
  breaks='parsing such a name overflows instead of giving an error',
  demo=PRE + '''
fn main() {
    let r = std::panic::catch_unwind(|| "ap@99999999999999999999999999".parse::<Metric>());
    assert!(matches!(r, Ok(Err(_))));
}'''),
 dict(id='S23-message-slice', prop='C34', file='src/trec.rs',
  old='''                "Run line must have five columns at least, but got {line}"
            )));''',
  new='''                "Run line must have five columns at least, but got {}",
                &line[..line.len().min(40)]
            )));''',
  needs='a malformed run line of more than 40 bytes with a multi-byte character around byte 40',
  breaks='the parser panics while building the error message',
  demo=PRE + '''
fn main() {
    let line = format!("q 0 {}", "\\u{e9}".repeat(40)).replace("q 0 ", "q 00 ");
    let line2 = format!("q 0 {}", "\\u{e9}".repeat(40));
    for l in [line, line2] {
        let r = std::panic::catch_unwind(|| elinor::trec::parse_pred_rels_in_trec([&l]).is_err());
        assert!(matches!(r, Ok(true)));
    }
}'''),
 dict(id='S24-optional-score', prop='C35', file='src/relevance.rs',
  old='''    /// Relevance score.
    pub score: T,
}

/// Data to store''',
  new='''    /// Relevance score (0 if a record does not have it).
    #[cfg_attr(feature = "serde", serde(default))]
    pub score: T,
}

/// Data to store''',
  needs='a JSON record without the score field',
  breaks='a record without a score is read as one with score 0',
  demo=SH + '''
printf '{"query_id":"q","doc_id":"d"}\\n' > t.jsonl
printf '{"query_id":"q","doc_id":"d","score":0.5}\\n' > p.jsonl
if "$bin/elinor-evaluate" -t t.jsonl -p p.jsonl -m precision@1 > o.txt 2>/dev/null; then exit 1; fi
exit 0
'''),
]
