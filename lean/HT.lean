/- Facts about slots of the hash table planes (C13, C14): plane p has 59·2^p slots;
   merging a plane of 2·s slots into one of s slots keeps each node in the slot its
   hash calls for. -/


theorem mod_two (i s : Nat) (h : i < 2 * s) : i % s = if i < s then i else i - s := by
  split
  · exact Nat.mod_eq_of_lt ‹_›
  · rename_i hs
    have hs' : s ≤ i := Nat.le_of_not_lt hs
    rw [Nat.mod_eq_sub_mod hs']
    exact Nat.mod_eq_of_lt (by omega)

/-- the nodes of slots r and r + s of the larger plane belong to slot r of the smaller -/
theorem merged_slot (h s r : Nat) (hr : r < s) (hh : h % (2 * s) = r ∨ h % (2 * s) = r + s) :
    h % s = r := by
  have hm : h % (2 * s) % s = h % s := Nat.mod_mod_of_dvd h ⟨2, by rw [Nat.mul_comm]⟩
  rw [← hm]
  rcases hh with e | e
  · rw [e]; exact Nat.mod_eq_of_lt hr
  · rw [e, Nat.add_mod_right]; exact Nat.mod_eq_of_lt hr

/-- every slot of the larger plane is slot r or r + s for exactly one slot r of the smaller -/
theorem slot_split (k s : Nat) (h : k < 2 * s) : (k < s) ∨ (s ≤ k ∧ k - s < s) := by omega

/-- sizes double -/
theorem plane_double (p : Nat) : 59 * 2 ^ (p + 1) = 2 * (59 * 2 ^ p) := by
  rw [Nat.pow_succ]; omega


