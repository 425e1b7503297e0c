PRE = '''
use elinor::*;
use std::collections::BTreeMap;
fn trues(rs: &[(&str, &str, u32)]) -> TrueRelStore<String> {
    TrueRelStore::from_records(rs.iter().map(|r| Record { query_id: r.0.to_string(), doc_id: r.1.to_string(), score: r.2 })).unwrap()
}
fn preds(rs: &[(&str, &str, f64)]) -> PredRelStore<String> {
    PredRelStore::from_records(rs.iter().map(|r| Record { query_id: r.0.to_string(), doc_id: r.1.to_string(), score: r.2.into() })).unwrap()
}
fn one(t: &[(&str, &str, u32)], p: &[(&str, &str, f64)], m: Metric) -> f64 {
    evaluate(&trues(t), &preds(p), m).unwrap().scores()["q"]
}
fn near(a: f64, b: f64) { assert!((a - b).abs() < 1e-9, "{a} != {b}"); }
'''
SEEDS = [
 dict(id='S01-overwrite-on-reject', prop='C01', file='src/relevance.rs',
  old='''        if rels.contains_key(&doc_id) {
            return Err(''',
  new='''        let exists = rels.contains_key(&doc_id);
        if let Some(slot) = rels.get_mut(&doc_id) {
            *slot = score;
        } else {
            rels.insert(doc_id.clone(), score);
        }
        if exists {
            return Err(''',
  edits=None,
  needs='add a pair twice with different scores, keep the builder after the error, and build',
  breaks='the rejected second score replaces the stored one',
  demo=PRE + '''
fn main() {
    let mut b = TrueRelStoreBuilder::new();
    b.add_record("q".to_string(), "d".to_string(), 1).unwrap();
    assert!(b.add_record("q".to_string(), "d".to_string(), 9).is_err());
    b.add_record("q".to_string(), "e".to_string(), 2).unwrap();
    assert_eq!(b.build().get_score("q", "d"), Some(&1));
}'''),
 dict(id='S02-unstable-ties', prop='C02', file='src/relevance.rs',
  old='sorted.sort_by(|a, b| b.score.cmp(&a.score).then(a.doc_id.cmp(&b.doc_id)));',
  new='sorted.sort_unstable_by(|a, b| b.score.cmp(&a.score));',
  needs='a query with more than twenty documents, several of them with equal scores',
  breaks='documents with equal scores are no longer ordered by document id',
  demo=PRE + '''
fn main() {
    let mut rs = vec![];
    for i in 0..200u32 { rs.push(Record { query_id: 0u32, doc_id: (i * 7919) % 200, score: (i * 31) % 3 }); }
    let s = TrueRelStore::from_records(rs).unwrap();
    let r = s.get_sorted(&0).unwrap();
    for w in r.windows(2) {
        assert!(w[0].score > w[1].score || (w[0].score == w[1].score && w[0].doc_id < w[1].doc_id));
    }
}'''),
 dict(id='S03-export-by-document', prop='C03', file='src/relevance.rs',
  old='''            .flat_map(|(query_id, data)| {
                data.sorted.iter().map(move |rel| Record {
                    query_id: query_id.clone(),
                    doc_id: rel.doc_id.clone(),
                    score: rel.score.clone(),
                })
            })
            .collect()''',
  new='''            .flat_map(|(query_id, data)| {
                data.map
                    .iter()
                    .filter(|(_, score)| data.sorted.last().map_or(false, |rel| **score >= rel.score))
                    .take(data.sorted.partition_point(|rel| rel.doc_id <= rel.doc_id))
                    .map(move |(doc_id, score)| Record {
                        query_id: query_id.clone(),
                        doc_id: doc_id.clone(),
                        score: score.clone(),
                    })
            })
            .collect()''',
  needs='records whose score order differs from their document-id order',
  breaks='records() lists the documents of a query by id although into_records() and get_sorted() list them by rank',
  demo=PRE + '''
fn main() {
    let rs = || trues(&[("q", "a", 1), ("q", "b", 5), ("q", "c", 3)]);
    let x: Vec<_> = rs().records();
    let y: Vec<_> = rs().into_records();
    assert_eq!(x, y);
}'''),
 dict(id='S04-skip-unjudged-query', prop='C04', file='src/metrics.rs', edits=[
  ('src/metrics.rs', '''    for query_id in pred_rels.query_ids() {
        if true_rels.get_map(query_id).is_none() {
            return Err(ElinorError::MissingEntry(format!(
                "The set of queries in true_rels must be a subset of that in pred_rels, but {} is missing",
                query_id
            )));
        }
    }
''', '''    if pred_rels.n_queries() > true_rels.n_queries() {
        let query_id = pred_rels
            .query_ids()
            .find(|query_id| true_rels.get_map(*query_id).is_none());
        if let Some(query_id) = query_id {
            return Err(ElinorError::MissingEntry(format!(
                "The set of queries in true_rels must be a subset of that in pred_rels, but {} is missing",
                query_id
            )));
        }
    }
'''), ('src/metrics.rs', '''        let trues = true_rels.get_map(query_id).unwrap();
''', '''        let Some(trues) = true_rels.get_map(query_id) else {
            continue;
        };
''')],
  needs='a predicted query without judgments while the judgments hold at least as many queries as the predictions',
  breaks='the query is silently left out instead of a missing-entry error',
  demo=PRE + '''
fn main() {
    let t = trues(&[("q1", "a", 1), ("q3", "a", 1)]);
    let p = preds(&[("q1", "a", 1.0), ("q2", "a", 1.0)]);
    assert!(matches!(evaluate(&t, &p, Metric::AP { k: 0 }), Err(ElinorError::MissingEntry(_))));
}'''),
 dict(id='S05-variance-of-range', prop='C05', file='src/lib.rs',
  old='''    let variance = scores
        .values()
        .map(|&score| (score - mean).powi(2))
        .sum::<f64>()
        / scores.len() as f64;''',
  new='''    let variance = scores
        .values()
        .map(|&score| (score - mean).powi(2))
        .sum::<f64>()
        / scores.len().clamp(1, 1000) as f64;''',
  needs='an evaluation over more than a thousand queries',
  breaks='the variance is divided by 1000 instead of the number of queries',
  demo=PRE + '''
fn main() {
    let t = TrueRelStore::from_records((0..3000u32).map(|i| Record { query_id: i, doc_id: 0u32, score: i % 2 })).unwrap();
    let p = PredRelStore::from_records((0..3000u32).map(|i| Record { query_id: i, doc_id: 0u32, score: 1.0.into() })).unwrap();
    let e = evaluate(&t, &p, Metric::Hits { k: 0 }).unwrap();
    near(e.mean(), 0.5);
    near(e.variance(), 0.25);
}'''),
 dict(id='S06-r-precision-short-ranking', prop='C06', file='src/metrics/r_precision.rs',
  old='compute_precision(trues, sorted_preds, n_rels, rel_lvl)',
  new='compute_precision(trues, sorted_preds, n_rels.min(sorted_preds.len()), rel_lvl)',
  needs='a query with more relevant documents than retrieved ones',
  breaks='R-Precision is divided by the ranking length instead of the number of relevant documents',
  demo=PRE + '''
fn main() {
    near(one(&[("q", "a", 1), ("q", "b", 1)], &[("q", "a", 2.0)], Metric::RPrecision), 0.5);
}'''),
 dict(id='S07-ap-divisor', prop='C07', file='src/metrics/average_precision.rs',
  old='sum / n_rels as f64', new='sum / n_rels.min(k.max(sorted_preds.len())) as f64',
  needs='more relevant judged documents than the ranking and the cutoff are long',
  breaks='average precision is divided by the ranking length instead of the number of relevant documents',
  demo=PRE + '''
fn main() {
    near(one(&[("q", "a", 1), ("q", "b", 1), ("q", "c", 1)], &[("q", "a", 2.0), ("q", "x", 1.0)], Metric::AP { k: 0 }), 1.0 / 3.0);
}'''),
 dict(id='S08-bpref-depth', prop='C08', file='src/metrics/bpref.rs',
  old='for pred in sorted_preds {', new='for pred in sorted_preds.iter().take(1000) {',
  needs='a relevant document below rank 1000',
  breaks='documents below rank 1000 are ignored by Bpref',
  demo=PRE + '''
fn main() {
    let t = TrueRelStore::from_records([Record { query_id: 0u32, doc_id: 1500u32, score: 1 }]).unwrap();
    let p = PredRelStore::from_records((0..2000u32).map(|i| Record { query_id: 0u32, doc_id: i, score: (2000.0 - i as f64).into() })).unwrap();
    near(evaluate(&t, &p, Metric::Bpref).unwrap().mean(), 1.0);
}'''),
 dict(id='S09-ideal-truncated', prop='C09', file='src/metrics/ndcg.rs',
  old='''    let sorted_trues = sorted_trues
        .iter()
        .map(''',
  new='''    let depth = if k == 0 { sorted_trues.len() } else { sorted_preds.len() };
    let sorted_trues = sorted_trues
        .iter()
        .take(depth)
        .map(''',
  needs='a non-zero cutoff and a ranking shorter than the cutoff and than the list of judged relevant documents',
  breaks='the ideal ranking is cut at the length of the predicted ranking, so nDCG is too high',
  demo=PRE + '''
fn main() {
    let v = one(&[("q", "a", 1), ("q", "b", 1), ("q", "c", 1)], &[("q", "a", 2.0)], Metric::NDCG { k: 3 });
    near(v, 1.0 / (1.0 + 1.0 / 3f64.log2() + 0.5));
}'''),
 dict(id='S10-rr-skips-unjudged', prop='C10', file='src/metrics/reciprocal_rank.rs',
  old='for (i, pred) in sorted_preds.iter().enumerate().take(k) {',
  new='''for (i, pred) in sorted_preds
        .iter()
        .enumerate()
        .filter(|(_, pred)| trues.contains_key(&pred.doc_id))
        .take(k)
    {''',
  needs='an unjudged document above the cutoff and the first relevant document below it',
  breaks='a relevant document below the cutoff contributes because unjudged documents do not count towards it',
  demo=PRE + '''
fn main() {
    near(one(&[("q", "a", 1)], &[("q", "x", 2.0), ("q", "a", 1.0)], Metric::RR { k: 1 }), 0.0);
}'''),
 dict(id='S11-zero-grade-success', prop='C11', file='src/metrics/success.rs', edits=[
  ('src/metrics/success.rs', '''            if rel >= rel_lvl {''', '''            if rel >= rel_lvl.min(trues.values().copied().max().unwrap_or(rel_lvl)) {''')],
  needs='a query all of whose judgments are grade 0',
  breaks='when no document is relevant, documents of the highest grade present count as relevant',
  demo=PRE + '''
fn main() {
    near(one(&[("q", "a", 0)], &[("q", "a", 2.0)], Metric::Success { k: 0 }), 0.0);
}'''),
 dict(id='S12-nan-scores', prop='C12', file='src/metrics/hits.rs',
  old='for pred in sorted_preds.iter().take(k) {',
  new="""for pred in sorted_preds.iter().take(k) {
        if pred.score.is_nan() {
            continue;
        }""",
  needs='a NaN predicted score',
  breaks='documents whose score is NaN keep their rank but are not counted, so scores act other than through the order',
  demo=PRE + '''
fn main() {
    let t = [("q", "a", 1), ("q", "b", 1)];
    let x = one(&t, &[("q", "a", 3.0), ("q", "b", 2.0)], Metric::Recall { k: 0 });
    let y = one(&t, &[("q", "a", f64::NAN), ("q", "b", 2.0)], Metric::Recall { k: 0 });
    near(x, y);
}'''),
 dict(id='S13-ndcg-nan', prop='C13', file='src/metrics/ndcg.rs',
  old='''    if idcg == 0.0 {
        1.0''',
  new='''    if sorted_trues.is_empty() {
        1.0''',
  needs='a query whose judgments are all grade 0',
  breaks='nDCG is 0/0 = NaN for such a query',
  demo=PRE + '''
fn main() {
    assert!(one(&[("q", "a", 0)], &[("q", "a", 2.0)], Metric::NDCG { k: 0 }).is_finite());
}'''),
]
# S01: the rest of the function after the replaced test
SEEDS[0]['edits'] = [(SEEDS[0]['file'], SEEDS[0]['old'], SEEDS[0]['new']),
                     (SEEDS[0]['file'], '''        rels.insert(doc_id, score);
        Ok(())''', '''        Ok(())''')]
