/-! Glue for the red-black tree units (cbmc/rbw.h, rbfix.h): how a window onto a
tree composes with the rest.  No axioms beyond Lean's core. -/
inductive Tree (α : Type) where
  | nil : Tree α
  | node : Bool → Tree α → α → Tree α → Tree α      -- true = red
open Tree

variable {α : Type}

def red : Tree α → Bool
  | nil => false
  | node c _ _ _ => c

/-- valid red-black subtree of black height n (its own root may be red) -/
inductive Valid : Tree α → Nat → Prop where
  | nil : Valid nil 0
  | red {l x r n} : Valid l n → Valid r n → red l = false → red r = false → Valid (node true l x r) n
  | black {l x r n} : Valid l n → Valid r n → Valid (node false l x r) (n + 1)

def inorder : Tree α → List α
  | nil => []
  | node _ l x r => inorder l ++ x :: inorder r

/-- one step of a path: colour, element, sibling; left = the hole is the left child -/
inductive Frame (α : Type) where
  | left : Bool → α → Tree α → Frame α
  | right : Bool → Tree α → α → Frame α

/-- innermost frame first -/
abbrev Ctx (α : Type) := List (Frame α)

def plug : Ctx α → Tree α → Tree α
  | [], t => t
  | .left c x r :: k, t => plug k (node c t x r)
  | .right c l x :: k, t => plug k (node c l x t)

/-- what a context accepts in its hole: black height n, red root allowed or not; root of the whole black -/
def Accepts : Ctx α → Nat → Bool → Prop
  | [], _, r => r = false
  | .left c _ s :: k, n, r => Valid s n ∧ (c = true → red s = false ∧ r = false) ∧ Accepts k (if c then n else n + 1) c
  | .right c s _ :: k, n, r => Valid s n ∧ (c = true → red s = false ∧ r = false) ∧ Accepts k (if c then n else n + 1) c

theorem Accepts.black {k : Ctx α} {n : Nat} {r : Bool} (h : Accepts k n r) : Accepts k n false := by
  cases k with
  | nil => rfl
  | cons f k =>
    cases f with
    | left c x s => exact ⟨h.1, fun hc => ⟨(h.2.1 hc).1, rfl⟩, h.2.2⟩
    | right c s x => exact ⟨h.1, fun hc => ⟨(h.2.1 hc).1, rfl⟩, h.2.2⟩

/-- a valid subtree in an accepting context gives a valid tree with a black root -/
theorem plug_valid : ∀ (k : Ctx α) (t : Tree α) (n : Nat), Valid t n → Accepts k n (red t) → ∃ m, Valid (plug k t) m ∧ red (plug k t) = false := by
  intro k
  induction k with
  | nil => intro t n h a; exact ⟨n, h, a⟩
  | cons f k ih =>
    intro t n h a
    cases f with
    | left c x s =>
      cases c with
      | true => exact ih _ n (.red h a.1 (a.2.1 rfl).2 (a.2.1 rfl).1) a.2.2
      | false => exact ih _ (n + 1) (.black h a.1) a.2.2
    | right c s x =>
      cases c with
      | true => exact ih _ n (.red a.1 h (a.2.1 rfl).1 (a.2.1 rfl).2) a.2.2
      | false => exact ih _ (n + 1) (.black a.1 h) a.2.2

/-- conversely a valid tree decomposes along any path -/
theorem plug_inv : ∀ (k : Ctx α) (t : Tree α) (m : Nat), Valid (plug k t) m → red (plug k t) = false → ∃ n, Valid t n ∧ Accepts k n (red t) := by
  intro k
  induction k with
  | nil => intro t m h r; exact ⟨m, h, r⟩
  | cons f k ih =>
    intro t m h r
    cases f with
    | left c x s =>
      obtain ⟨n, hv, ha⟩ := ih (node c t x s) m h r
      cases hv with
      | red h1 h2 h3 h4 => exact ⟨n, h1, h2, fun _ => ⟨h4, h3⟩, ha⟩
      | black h1 h2 => exact ⟨_, h1, h2, (fun hc => Bool.noConfusion hc), ha⟩
    | right c s x =>
      obtain ⟨n, hv, ha⟩ := ih (node c s x t) m h r
      cases hv with
      | red h1 h2 h3 h4 => exact ⟨n, h2, h1, fun _ => ⟨h3, h4⟩, ha⟩
      | black h1 h2 => exact ⟨_, h2, h1, (fun hc => Bool.noConfusion hc), ha⟩

/-- replacing a subtree by a valid one of the same black height whose root is not newly red keeps the tree valid -/
theorem replace_valid (k : Ctx α) (t t' : Tree α) (n : Nat) (a : Accepts k n (red t)) (h : Valid t' n) (c : red t' = true → red t = true) :
    ∃ m, Valid (plug k t') m ∧ red (plug k t') = false := by
  apply plug_valid k t' n h
  cases hr : red t' with
  | false => exact a.black
  | true => rw [c hr] at a; exact a

/-- the same, the black height of the hole being given by the context only (deficit repaired, new leaf) -/
theorem fill_valid (k : Ctx α) (t' : Tree α) (n : Nat) (r : Bool) (a : Accepts k n r) (h : Valid t' n) (c : red t' = true → r = true) :
    ∃ m, Valid (plug k t') m ∧ red (plug k t') = false := by
  apply plug_valid k t' n h
  cases hr : red t' with
  | false => exact a.black
  | true => rw [c hr] at a; exact a

/-- a root short of one black node is a valid tree; a red root with red children turned black too -/
theorem blacken {l r : Tree α} {x : α} {n : Nat} (hl : Valid l n) (hr : Valid r n) : Valid (node false l x r) (n + 1) := .black hl hr

def before : Ctx α → List α
  | [] => []
  | .left _ _ _ :: k => before k
  | .right _ l x :: k => before k ++ (inorder l ++ [x])

def after : Ctx α → List α
  | [] => []
  | .left _ x r :: k => (x :: inorder r) ++ after k
  | .right _ _ _ :: k => after k

theorem inorder_plug : ∀ (k : Ctx α) (t : Tree α), inorder (plug k t) = before k ++ inorder t ++ after k := by
  intro k
  induction k with
  | nil => intro t; simp [plug, before, after]
  | cons f k ih =>
    intro t
    cases f with
    | left c x r => simp [plug, before, after, ih, inorder]
    | right c l x => simp [plug, before, after, ih, inorder]

/-- same in-order sequence of the part: same in-order sequence of the whole (rotations, recolouring) -/
theorem inorder_replace (k : Ctx α) (t t' : Tree α) (h : inorder t' = inorder t) : inorder (plug k t') = inorder (plug k t) := by
  simp [inorder_plug, h]

/-- a new leaf adds exactly its element, at the place of the hole -/
theorem inorder_insert (k : Ctx α) (x : α) (c : Bool) : inorder (plug k (node c nil x nil)) = before k ++ x :: after k := by
  simp [inorder_plug, inorder]

/-- a node with at most one child, replaced by that child -/
theorem inorder_remove_left (k : Ctx α) (c : Bool) (a : Tree α) (x : α) :
    inorder (plug k (node c a x nil)) = before k ++ inorder a ++ x :: after k ∧ inorder (plug k a) = before k ++ inorder a ++ after k := by
  simp [inorder_plug, inorder]
theorem inorder_remove_right (k : Ctx α) (c : Bool) (a : Tree α) (x : α) :
    inorder (plug k (node c nil x a)) = before k ++ x :: (inorder a ++ after k) ∧ inorder (plug k a) = before k ++ (inorder a ++ after k) := by
  simp [inorder_plug, inorder]

/-- a left spine: all frames are left frames -/
def Spine : Ctx α → Prop
  | [] => True
  | .left _ _ _ :: k => Spine k
  | .right _ _ _ :: _ => False

theorem spine_before : ∀ (k : Ctx α), Spine k → before k = [] := by
  intro k
  induction k with
  | nil => intro _; rfl
  | cons f k ih =>
    intro h
    cases f with
    | left c x r => exact ih h
    | right c l x => exact h.elim

/-- x with two subtrees: its successor y, the end of the right part's left spine, takes x's place and leaves its right subtree t at its own -/
theorem inorder_remove_two (k s : Ctx α) (hs : Spine s) (c d e : Bool) (a t : Tree α) (x y : α) :
    inorder (plug k (node c a x (plug s (node d nil y t)))) = (before k ++ inorder a) ++ x :: (y :: inorder t ++ after s ++ after k) ∧
    inorder (plug k (node e a y (plug s t))) = (before k ++ inorder a) ++ (y :: inorder t ++ after s ++ after k) := by
  simp [inorder_plug, inorder, spine_before s hs]

/-- the first node of the tree, the end of the left spine from the root, is taken out by teardown -/
theorem inorder_fini (s : Ctx α) (hs : Spine s) (d : Bool) (y : α) (t : Tree α) :
    inorder (plug s (node d nil y t)) = y :: inorder (plug s t) := by
  simp [inorder_plug, inorder, spine_before s hs]

def size : Tree α → Nat
  | nil => 0
  | node _ l _ r => size l + size r + 1

def height : Tree α → Nat
  | nil => 0
  | node _ l _ r => max (height l) (height r) + 1

theorem size_bound {t : Tree α} {n : Nat} (h : Valid t n) : 2 ^ n ≤ size t + 1 := by
  induction h with
  | nil => simp [size]
  | red _ _ _ _ ih1 ih2 => simp [size]; omega
  | black _ _ ih1 ih2 => simp [size, Nat.pow_succ]; omega

theorem height_bound {t : Tree α} {n : Nat} (h : Valid t n) : height t ≤ 2 * n + (if red t then 1 else 0) := by
  induction h with
  | nil => simp [height, red]
  | @red l x r n _ _ h3 h4 ih1 ih2 =>
    rw [h3] at ih1; rw [h4] at ih2
    simp at ih1 ih2
    simp [height, red]; omega
  | @black l x r n _ _ ih1 ih2 =>
    have a : height l ≤ 2 * n + 1 := by split at ih1 <;> omega
    have b : height r ≤ 2 * n + 1 := by split at ih2 <;> omega
    simp [height, red]; omega

/-- height at most 2 log2(size + 1) for a valid tree with a black root -/
theorem log_bound {t : Tree α} {n : Nat} (h : Valid t n) (r : red t = false) : 2 ^ n ≤ size t + 1 ∧ height t ≤ 2 * n := by
  have := height_bound h
  simp [r] at this
  exact ⟨size_bound h, this⟩

/-- fewer than 2^60 nodes (16 bytes each, 64 bit addresses): black height below 61 and no path longer than 120 -/
theorem path_bound {t : Tree α} {n : Nat} (h : Valid t n) (r : red t = false) (s : size t < 2 ^ 60) : n ≤ 60 ∧ height t ≤ 120 := by
  have ⟨a, b⟩ := log_bound h r
  have : n ≤ 60 := by
    apply Decidable.byContradiction
    intro hn
    have : 2 ^ 61 ≤ 2 ^ n := Nat.pow_le_pow_right (by decide) (by omega)
    have e : (2 : Nat) ^ 61 = 2 * 2 ^ 60 := by decide
    have e0 : 0 < (2 : Nat) ^ 60 := by decide
    omega
  exact ⟨this, by omega⟩
