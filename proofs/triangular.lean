import Mathlib.Tactic
import Mathlib.Data.Int.GCD
theorem odd_dvd (k : ℕ) (a b : ℕ) (ha : a % 2 = 1) (h : 2^k ∣ a * b) : 2^k ∣ b := by
  have : Nat.Coprime (2^k) a := Nat.Coprime.pow_left k (by
    rw [Nat.coprime_comm, Nat.coprime_two_right]; exact Nat.odd_iff.mpr ha)
  exact this.dvd_of_dvd_mul_left h
/-- H01: distinct steps of the probe sequence of a table of 2^k slots are at distinct distances, modulo its size -/
theorem triangular (k s t : ℕ) (hs : s < 2^k) (ht : t < s)
    (h : (2:ℕ)^k * 2 ∣ (s * (s+1) - t * (t+1))) : False := by
  obtain ⟨d, rfl⟩ : ∃ d, s = t + d := ⟨s - t, by omega⟩
  have e : (t+d) * (t+d+1) - t*(t+1) = d * (2*t+d+1) := by
    have : (t+d) * (t+d+1) = t*(t+1) + d * (2*t+d+1) := by ring
    omega
  rw [e, ← pow_succ] at h
  have h2 : (2:ℕ)^(k+1) = 2 * 2^k := by rw [pow_succ]; ring
  rcases Nat.even_or_odd d with hd | hd
  · have : (2*t+d+1) % 2 = 1 := by obtain ⟨c, rfl⟩ := hd; omega
    have := odd_dvd (k+1) _ d this (by rwa [mul_comm])
    have := Nat.le_of_dvd (by omega) this
    omega
  · have := odd_dvd (k+1) d _ (Nat.odd_iff.mp hd) h
    have := Nat.le_of_dvd (by omega) this
    omega
