(ns clojure.core)
(defmacro defn [name & body]
  (let [body (if (string? (first body)) (rest body) body)
        body (if (map? (first body)) (rest body) body)]
    (list 'def name (cons 'fn (cons name body)))))
(defmacro defn- [name & body] (cons 'clojure.core/defn (cons name body)))
(defmacro declare [& names] (cons 'do (list* (loop [ns (seq names) out (list)] (if ns (recur (next ns) (cons (list 'def (first ns)) out)) out)))))
(defmacro when [t & body] (list 'if t (cons 'do body) nil))
(defmacro when-not [t & body] (list 'if t nil (cons 'do body)))
(defmacro if-not ([t a] (list 'if t nil a)) ([t a b] (list 'if t b a)))
(defmacro and ([] true) ([x] x) ([x & more] `(let [and# ~x] (if and# (and ~@more) and#))))
(defmacro or ([] nil) ([x] x) ([x & more] `(let [or# ~x] (if or# or# (or ~@more)))))
(defmacro cond [& cs] (if (seq cs) (list 'if (first cs) (second cs) (cons 'clojure.core/cond (next (next cs)))) nil))
(defmacro if-let ([b t] `(if-let ~b ~t nil))
  ([b t e] (let [f (first b) x (second b)] `(let [temp# ~x] (if temp# (let [~f temp#] ~t) ~e)))))
(defmacro when-let [b & body] (let [f (first b) x (second b)] `(let [temp# ~x] (if temp# (let [~f temp#] ~@body) nil))))
(defmacro if-some ([b t] `(if-some ~b ~t nil))
  ([b t e] (let [f (first b) x (second b)] `(let [temp# ~x] (if (nil? temp#) ~e (let [~f temp#] ~t))))))
(defmacro when-some [b & body] (let [f (first b) x (second b)] `(let [temp# ~x] (if (nil? temp#) nil (let [~f temp#] ~@body)))))
(defmacro when-first [b & body] (let [f (first b) x (second b)] `(let [temp# (seq ~x)] (if temp# (let [~f (first temp#)] ~@body) nil))))
(defmacro comment [& _] nil)
(defmacro defonce [n x] (list 'def n x))
(defmacro -> [x & forms]
  (loop [x x forms (seq forms)]
    (if forms
      (let [f (first forms)]
        (recur (if (seq? f) (list* (first f) x (next f)) (list f x)) (next forms)))
      x)))
(defmacro ->> [x & forms]
  (loop [x x forms (seq forms)]
    (if forms
      (let [f (first forms)]
        (recur (if (seq? f) (apply list (first f) (conj (vec (next f)) x)) (list f x)) (next forms)))
      x)))
(defmacro as-> [x n & forms]
  (loop [binds [n x] forms (seq forms)]
    (if forms (recur (conj (conj binds n) (first forms)) (next forms)) (list 'let binds n))))
(defmacro cond-> [x & cs]
  (let [g (gensym "c")]
    (loop [binds [g x] cs (seq cs)]
      (if cs
        (recur (conj (conj binds g) (list 'if (first cs) (list 'clojure.core/-> g (second cs)) g)) (next (next cs)))
        (list 'let binds g)))))
(defmacro cond->> [x & cs]
  (let [g (gensym "c")]
    (loop [binds [g x] cs (seq cs)]
      (if cs
        (recur (conj (conj binds g) (list 'if (first cs) (list 'clojure.core/->> g (second cs)) g)) (next (next cs)))
        (list 'let binds g)))))
(defmacro some-> [x & fs]
  (let [g (gensym "c")]
    (loop [binds [g x] fs (seq fs)]
      (if fs
        (recur (conj (conj binds g) (list 'if (list 'clojure.core/nil? g) nil (list 'clojure.core/-> g (first fs)))) (next fs))
        (list 'let binds g)))))
(defmacro some->> [x & fs]
  (let [g (gensym "c")]
    (loop [binds [g x] fs (seq fs)]
      (if fs
        (recur (conj (conj binds g) (list 'if (list 'clojure.core/nil? g) nil (list 'clojure.core/->> g (first fs)))) (next fs))
        (list 'let binds g)))))
(defmacro doto [x & forms]
  (let [g (gensym "d")]
    (list* 'let [g x] (conj (mapv (fn [f] (if (seq? f) (list* (first f) g (next f)) (list f g))) forms) g))))
(defmacro .. [x & forms]
  (loop [x x forms (seq forms)] (if forms (recur (list '. x (first forms)) (next forms)) x)))
(defmacro condp [p e & cs]
  (let [pg (gensym "p") eg (gensym "e")
        go (fn go [cs]
             (cond (not (seq cs)) (list 'throw (list 'IllegalArgumentException. "No matching clause"))
                   (not (next cs)) (first cs)
                   (= :>> (second cs)) (list 'let ['t__ (list pg (first cs) eg)] (list 'if 't__ (list (nth cs 2) 't__) (go (nthnext cs 3))))
                   :else (list 'if (list pg (first cs) eg) (second cs) (go (nthnext cs 2)))))]
    (list 'let [pg p eg e] (go cs))))
(defmacro assert ([x] `(when-not ~x (throw (AssertionError. (str "Assert failed: " (pr-str '~x))))))
  ([x m] `(when-not ~x (throw (AssertionError. (str "Assert failed: " ~m "\n" (pr-str '~x)))))))
(defmacro while [t & body] `(loop [] (when ~t ~@body (recur))))
(defmacro dotimes [b & body] (let [i (first b) n (second b)] `(let [n# ~n] (loop [~i 0] (when (< ~i n#) ~@body (recur (inc ~i)))))))
(defmacro with-out-str [& body] `(let [s# (string-writer*)] (binding [*out* s#] ~@body) (str s#)))
(defmacro with-open [bs & body]
  (if (seq bs)
    (list 'let [(first bs) (second bs)]
          (list 'try (list* 'clojure.core/with-open (vec (nnext bs)) body) (list 'finally (list '. (first bs) 'close))))
    (cons 'do body)))
(defmacro time [x] x)
(defmacro defmulti [name & opts]
  (let [opts (if (string? (first opts)) (next opts) opts)
        opts (if (map? (first opts)) (next opts) opts)
        f (first opts)
        o (apply hash-map (next opts))]
    (list 'def name (list 'clojure.core/multi* (str name) f (get o :default :default)))))
(defmacro defmethod [name d & tail] (list 'clojure.core/add-method* name d (cons 'fn tail)))
(defmacro doseq [bs & body]
  (let [go (fn go [bs]
             (if (seq bs)
               (let [k (first bs) x (second bs) more (nnext bs)]
                 (cond (= k :let) (list 'let x (go more))
                       (= k :when) (list 'if x (go more) nil)
                       (keyword? k) (throw (ex-info "doseq" {}))
                       :else (list 'clojure.core/run! (list 'fn [k] (go more)) x)))
               (cons 'do (concat body [nil]))))]
    (go (seq bs))))
(defmacro for [bs body]
  (let [go (fn go [bs]
             (if (seq bs)
               (let [k (first bs) x (second bs) more (nnext bs)]
                 (cond (= k :let) (list 'let x (go more))
                       (= k :when) (list 'if x (go more) nil)
                       (keyword? k) (throw (ex-info "for" {}))
                       :else (list 'clojure.core/mapcat (list 'fn [k] (go more)) x)))
               (list 'clojure.core/list body)))]
    (go (seq bs))))
(defmacro lazy-cat [& xs] (cons 'clojure.core/concat (mapv (fn [x] (list 'lazy-seq x)) xs)))
(defmacro future [& _] '(clojure.core/undecided "future"))

(declare identity complement comp partial juxt fnil every-pred some-fn memoize not-any? not-every? completing ensure-reduced transduce eduction sequence concat map filter remove filterv keep cat mapcat map-indexed keep-indexed take drop take-while drop-while take-last drop-last split-at split-with interpose interleave distinct dedupe repeat repeatedly iterate cycle partition partition-all partition-by flatten tree-seq max-key min-key replace update-vals update-keys rseq trampoline)
(defn identity [x] x)
(defn complement [f] (fn [& a] (not (apply f a))))
(defn comp
  ([] identity)
  ([f] f)
  ([f g] (fn [& a] (f (apply g a))))
  ([f g & fs] (reduce comp (comp f g) fs)))
(defn partial [f & a] (fn [& b] (apply f (concat a b))))
(defn juxt [& fs] (fn [& a] (mapv (fn [f] (apply f a)) fs)))
(defn fnil [f & ds] (fn [& a] (apply f (concat (map (fn [d x] (if (nil? x) d x)) ds a) (drop (count ds) a)))))
(defn every-pred [& ps] (fn [& xs] (boolean (every? (fn [p] (every? p xs)) ps))))
(defn some-fn [& ps] (fn [& xs] (some (fn [p] (some p xs)) ps)))
(defn memoize [f] (let [m (atom {})] (fn [& a] (if (contains? @m a) (get @m a) (let [r (apply f a)] (swap! m assoc a r) r)))))
(defn not-any? [p c] (not (some p c)))
(defn not-every? [p c] (not (every? p c)))
(defn completing ([f] (completing f identity)) ([f cf] (fn ([] (f)) ([x] (cf x)) ([x y] (f x y)))))
(defn ensure-reduced [x] (if (reduced? x) x (reduced x)))
(defn transduce
  ([xf f c] (transduce xf f (f) c))
  ([xf f init c] (let [g (xf f)] (g (reduce g init c)))))
(defn eduction [& a] (let [c (last a) xf (apply comp (butlast a))] (lazy-seq (into [] xf c))))
(defn sequence ([c] (or (seq c) ())) ([xf c] (lazy-seq (into [] xf c))))
(defn concat
  ([] ())
  ([a] (lazy-seq a))
  ([a b] (lazy-seq (if-let [s (seq a)] (cons (first s) (concat (rest s) b)) b)))
  ([a b & more] (concat a (apply concat b more))))
(defn map
  ([f] (fn [rf] (fn ([] (rf)) ([r] (rf r)) ([r x] (rf r (f x))) ([r x & xs] (rf r (apply f x xs))))))
  ([f c] (lazy-seq (when-let [s (seq c)] (cons (f (first s)) (map f (rest s))))))
  ([f c & cs] (let [all (cons c cs)
                    step (fn step [cs] (lazy-seq (let [ss (mapv seq cs)] (when (every? identity ss) (cons (apply f (mapv first ss)) (step (mapv rest ss)))))))]
                (step (vec all)))))
(defn filter
  ([p] (fn [rf] (fn ([] (rf)) ([r] (rf r)) ([r x] (if (p x) (rf r x) r)))))
  ([p c] (lazy-seq (loop [s (seq c)] (when s (if (p (first s)) (cons (first s) (filter p (rest s))) (recur (next s))))))))
(defn remove ([p] (filter (complement p))) ([p c] (filter (complement p) c)))
(defn filterv [p c] (vec (filter p c)))
(defn keep
  ([f] (fn [rf] (fn ([] (rf)) ([r] (rf r)) ([r x] (let [v (f x)] (if (nil? v) r (rf r v)))))))
  ([f c] (lazy-seq (loop [s (seq c)] (when s (let [v (f (first s))] (if (nil? v) (recur (next s)) (cons v (keep f (rest s))))))))))
(defn cat [rf] (let [rrf (fn [r x] (let [y (rf r x)] (if (reduced? y) (reduced y) y)))] (fn ([] (rf)) ([r] (rf r)) ([r x] (reduce rrf r x)))))
(defn mapcat
  ([f] (comp (map f) cat))
  ([f & cs] (let [step (fn step [s] (lazy-seq (when-let [s (seq s)] (concat (first s) (step (rest s))))))] (step (apply map f cs)))))
(defn map-indexed
  ([f] (fn [rf] (let [i (volatile! -1)] (fn ([] (rf)) ([r] (rf r)) ([r x] (rf r (f (vswap! i inc) x)))))))
  ([f c] (let [step (fn step [i s] (lazy-seq (when-let [s (seq s)] (cons (f i (first s)) (step (inc i) (rest s))))))] (step 0 c))))
(defn keep-indexed
  ([f] (fn [rf] (let [i (volatile! -1)] (fn ([] (rf)) ([r] (rf r)) ([r x] (let [v (f (vswap! i inc) x)] (if (nil? v) r (rf r v))))))))
  ([f c] (into () (reverse (into [] (keep-indexed f) c)))))
(defn take
  ([n] (fn [rf] (let [k (volatile! n)] (fn ([] (rf)) ([r] (rf r)) ([r x] (let [n @k nn (vswap! k dec) r (if (pos? n) (rf r x) r)] (if (not (pos? nn)) (ensure-reduced r) r)))))))
  ([n c] (lazy-seq (when (pos? n) (when-let [s (seq c)] (cons (first s) (take (dec n) (rest s))))))))
(defn drop
  ([n] (fn [rf] (let [k (volatile! n)] (fn ([] (rf)) ([r] (rf r)) ([r x] (if (pos? @k) (do (vswap! k dec) r) (rf r x)))))))
  ([n c] (lazy-seq (loop [n n s (seq c)] (if (and (pos? n) s) (recur (dec n) (next s)) s)))))
(defn take-while
  ([p] (fn [rf] (fn ([] (rf)) ([r] (rf r)) ([r x] (if (p x) (rf r x) (reduced r))))))
  ([p c] (lazy-seq (when-let [s (seq c)] (when (p (first s)) (cons (first s) (take-while p (rest s))))))))
(defn drop-while
  ([p] (fn [rf] (let [d (volatile! true)] (fn ([] (rf)) ([r] (rf r)) ([r x] (if (and @d (p x)) r (do (vreset! d false) (rf r x))))))))
  ([p c] (lazy-seq (loop [s (seq c)] (if (and s (p (first s))) (recur (next s)) s)))))
(defn take-last [n c] (seq (drop (- (count c) n) c)))
(defn drop-last ([c] (drop-last 1 c)) ([n c] (take (- (count c) n) c)))
(defn split-at [n c] [(take n c) (drop n c)])
(defn split-with [p c] [(take-while p c) (drop-while p c)])
(defn interpose
  ([sep] (fn [rf] (let [st (volatile! false)] (fn ([] (rf)) ([r] (rf r)) ([r x] (if @st (let [s (rf r sep)] (if (reduced? s) s (rf s x))) (do (vreset! st true) (rf r x))))))))
  ([sep c] (drop 1 (mapcat (fn [x] (list sep x)) c))))
(defn interleave [a b] (mapcat list a b))
(defn distinct
  ([] (fn [rf] (let [seen (volatile! #{})] (fn ([] (rf)) ([r] (rf r)) ([r x] (if (contains? @seen x) r (do (vswap! seen conj x) (rf r x))))))))
  ([c] (let [step (fn step [c seen] (lazy-seq (loop [s (seq c)] (when s (if (contains? seen (first s)) (recur (next s)) (cons (first s) (step (rest s) (conj seen (first s)))))))))] (step c #{}))))
(defn dedupe
  ([] (fn [rf] (let [pv (volatile! ::none)] (fn ([] (rf)) ([r] (rf r)) ([r x] (let [p @pv] (vreset! pv x) (if (= p x) r (rf r x))))))))
  ([c] (sequence (dedupe) c)))
(defn repeat ([x] (lazy-seq (cons x (repeat x)))) ([n x] (take n (repeat x))))
(defn repeatedly ([f] (lazy-seq (cons (f) (repeatedly f)))) ([n f] (take n (repeatedly f))))
(defn iterate [f x] (lazy-seq (cons x (iterate f (f x)))))
(defn cycle [c] (lazy-seq (when-let [s (seq c)] (concat s (cycle c)))))
(defn partition
  ([n c] (partition n n c))
  ([n step c] (lazy-seq (when-let [s (seq c)] (let [p (doall (take n s))] (when (= n (count p)) (cons p (partition n step (nthrest s step)))))))))
(defn partition-all
  ([n c] (lazy-seq (when-let [s (seq c)] (let [p (doall (take n s))] (cons p (partition-all n (nthrest s n))))))))
(defn partition-by [f c]
  (lazy-seq (when-let [s (seq c)] (let [fst (first s) fv (f fst) run (cons fst (take-while (fn [x] (= fv (f x))) (next s)))] (cons run (partition-by f (lazy-seq (drop (count run) s))))))))
(defn flatten [x] (filter (complement sequential?) (rest (tree-seq sequential? seq x))))
(defn tree-seq [branch? children root]
  (let [walk (fn walk [n] (lazy-seq (cons n (when (branch? n) (mapcat walk (children n))))))] (walk root)))
(defn max-key
  ([k x] x)
  ([k x y] (if (> (k x) (k y)) x y))
  ([k x y & more] (reduce (fn [a b] (max-key k a b)) (max-key k x y) more)))
(defn min-key
  ([k x] x)
  ([k x y] (if (< (k x) (k y)) x y))
  ([k x y & more] (reduce (fn [a b] (min-key k a b)) (min-key k x y) more)))
(defn replace [m c] (if (vector? c) (mapv (fn [x] (if (contains? m x) (get m x) x)) c) (map (fn [x] (if (contains? m x) (get m x) x)) c)))
(defn update-vals [m f] (into {} (map (fn [[k v]] [k (f v)])) m))
(defn update-keys [m f] (into {} (map (fn [[k v]] [(f k) v])) m))
(defn rseq [c] (seq (reverse c)))
(defn trampoline [f & a] (loop [r (apply f a)] (if (fn? r) (recur (r)) r)))
(defn reductions
  ([f c] (lazy-seq (if-let [s (seq c)] (reductions f (first s) (rest s)) (list (f)))))
  ([f init c] (cons init (lazy-seq (when-let [s (seq c)] (reductions f (f init (first s)) (rest s)))))))
(defn take-nth [n c] (lazy-seq (when-let [s (seq c)] (cons (first s) (take-nth n (drop n s))))))
(defn partitionv ([n c] (map vec (partition n c))) ([n step c] (map vec (partition n step c))))
(defn splitv-at [n c] [(vec (take n c)) (drop n c)])
(defn nfirst [x] (next (first x)))
(defn neg-int? [x] (and (int? x) (neg? x)))
(defn swap-vals! [a f & xs] (let [o @a n (apply f o xs)] (reset! a n) [o n]))
(defn reset-vals! [a n] (let [o @a] (reset! a n) [o n]))
(defn compare-and-set! [a o n] (if (identical? @a o) (do (reset! a n) true) false))
(defn bounded-count [n c] (count (take n c)))
(defn comparator [p] (fn [x y] (cond (p x y) -1 (p y x) 1 :else 0)))
(defn parse-boolean [t] (cond (= t "true") true (= t "false") false :else nil))
(defn counted? [x] (or (vector? x) (map? x) (set? x) (list? x)))

(ns clojure.string)
(defn escape [t m] (apply str (map (fn [c] (let [r (m c)] (if (nil? r) c r))) t)))
(defn reverse [t] (apply str (clojure.core/reverse t)))

(ns clojure.set)
(defn rename-keys [m kmap] (reduce (fn [r [o n]] (if (contains? m o) (assoc r n (get m o)) r)) (apply dissoc m (keys kmap)) kmap))
(defn map-invert [m] (into {} (map (fn [[k v]] [v k])) m))
(defn superset? [a b] (every? (fn [x] (contains? a x)) b))
(defn select [p s] (set (filter p s)))

(ns clojure.walk)
(defn prewalk [f x]
  (let [y (f x)]
    (cond (map? y) (into {} (map (fn [[k v]] [(prewalk f k) (prewalk f v)])) y)
          (vector? y) (mapv (fn [z] (prewalk f z)) y)
          (set? y) (set (map (fn [z] (prewalk f z)) y))
          (seq? y) (apply list (map (fn [z] (prewalk f z)) y))
          :else y)))
(defn keywordize-keys [m] (clojure.walk/postwalk (fn [x] (if (map? x) (into {} (map (fn [[k v]] [(if (string? k) (keyword k) k) v])) x) x)) m))
(defn stringify-keys [m] (clojure.walk/postwalk (fn [x] (if (map? x) (into {} (map (fn [[k v]] [(if (keyword? k) (name k) k) v])) x) x)) m))

(ns lb.spec)
(def registry (atom {}))
(def invalid :clojure.spec.alpha/invalid)
(declare conform*)
(defn spec [f] {::spec f})
(defn resolve* [s]
  (cond (keyword? s) (if (contains? @registry s) (recur (get @registry s)) (throw (ex-info (str "Unable to resolve spec: " s) {})))
        (and (map? s) (::spec s)) (::spec s)
        :else (fn [x] (if (s x) x invalid))))
(defn conform* [s x] ((resolve* s) x))
(defn valid [s x] (not= invalid (conform* s x)))
(defn and* [ss] (spec (fn [x] (reduce (fn [x s] (let [y (conform* s x)] (if (= y invalid) (reduced invalid) y))) x ss))))
(defn or* [ps] (spec (fn [x] (loop [ps (seq ps)] (if ps (let [[k s] (first ps) y (conform* s x)] (if (= y invalid) (recur (next ps)) [k y])) invalid)))))
(defn keys* [req opt req-un opt-un]
  (spec (fn [m]
          (if (and (map? m)
                   (every? (fn [k] (contains? m k)) req)
                   (every? (fn [k] (contains? m (keyword (name k)))) req-un))
            (let [specs (into {} (concat (map (fn [k] [(keyword (name k)) k]) (concat req-un opt-un))))]
              (reduce (fn [r [k v]]
                        (let [s (cond (contains? specs k) (get specs k)
                                      (and (keyword? k) (namespace k)) k
                                      :else nil)]
                          (if (and s (contains? @registry s))
                            (let [y (conform* s v)] (if (= y invalid) (reduced invalid) (assoc r k y)))
                            r)))
                      m m))
            invalid))))
(defn coll* [s o]
  (spec (fn [c]
          (if (and (coll? c)
                   (if-let [k (:kind o)] (k c) true)
                   (if-let [n (:count o)] (= n (count c)) true)
                   (if-let [n (:min-count o)] (<= n (count c)) true)
                   (if-let [n (:max-count o)] (>= n (count c)) true)
                   (if (:distinct o) (or (empty? c) (apply distinct? c)) true))
            (let [ys (mapv (fn [x] (conform* s x)) c)]
              (if (some (fn [y] (= y invalid)) ys)
                invalid
                (cond (vector? c) ys (set? c) (set ys) :else (seq ys))))
            invalid))))
(defn map* [ks vs o]
  (spec (fn [m]
          (if (and (map? m) (if-let [n (:count o)] (= n (count m)) true))
            (reduce (fn [r [k v]]
                      (let [y (conform* vs v)]
                        (if (or (= y invalid) (not (valid ks k))) (reduced invalid) (assoc r k y))))
                    m m)
            invalid))))
(defn multi-spec* [mm]
  (spec (fn [x]
          (let [s (try (mm x) (catch IllegalArgumentException _ nil))]
            (if s (conform* s x) invalid)))))
(defn nilable* [s] (spec (fn [x] (if (nil? x) nil (conform* s x)))))
(def asserting (atom false))
(defn assert* [s x]
  (if (or (not @asserting) (valid s x)) x
    (throw (ex-info "Spec assertion failed\n" {:clojure.spec.alpha/failure :assertion-failed}))))
(ns clojure.core)
(defn distinct? [& xs] (= (count xs) (count (set xs))))

(ns clojure.spec.alpha)
(defn valid? [s x] (lb.spec/valid s x))
(defn conform [s x] (lb.spec/conform* s x))
(defn check-asserts [b] (reset! lb.spec/asserting b) b)
(defn invalid? [x] (= x :clojure.spec.alpha/invalid))
(defmacro def [k s] (list 'do (list 'clojure.core/swap! 'lb.spec/registry 'clojure.core/assoc k s) k))
(defmacro and [& ss] (list 'lb.spec/and* (vec ss)))
(defmacro or [& kss] (list 'lb.spec/or* (mapv vec (clojure.core/partition 2 kss))))
(defmacro keys [& o] (let [o (apply hash-map o)] (list 'lb.spec/keys* (get o :req) (get o :opt) (get o :req-un) (get o :opt-un))))
(defmacro coll-of [s & o] (list 'lb.spec/coll* s (apply hash-map o)))
(defmacro every [s & o] (list 'lb.spec/coll* s (apply hash-map o)))
(defmacro map-of [k v & o] (list 'lb.spec/map* k v (apply hash-map o)))
(defmacro multi-spec [mm _] (list 'lb.spec/multi-spec* mm))
(defmacro nilable [s] (list 'lb.spec/nilable* s))
(defmacro spec [s] s)
(defmacro assert [s x] (list 'lb.spec/assert* s x))

(ns rebel-readline.clojure.main)
(def entered (atom 0))
(defn repl [& kvs]
  (let [o (apply hash-map kvs)]
    (swap! entered inc)
    (try ((:init o)) (catch Throwable e ((:caught o) e)))
    nil))

(ns taoensso.telemere)
(defmacro log! [& _] nil)
(defn remove-handler! [& _] nil)
(defn add-handler! [& _] nil)
(defn call-on-shutdown! [& _] nil)
(defn stop-handlers! [& _] nil)
(ns clojure.core)
