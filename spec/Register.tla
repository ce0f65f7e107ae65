------------------------------ MODULE Register ------------------------------
(* Registering sky maps in a data repository (C23, C24).  A repository maps *)
(* names to registered maps; a map is known by its definition.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nothing == [x \in {} |-> 0]                  \* an empty repository
(* what registering map m under a name must do *)
Outcome(repo, m, name) ==
  IF name \in DOMAIN repo THEN (IF repo[name] = m THEN "same" ELSE "conflict")
  ELSE IF \E n \in DOMAIN repo : repo[n] = m THEN "conflict"
  ELSE "insert"
After(repo, m, name) == IF Outcome(repo, m, name) = "insert" THEN (name :> m) @@ repo ELSE repo

(* what a registered map leaves behind; nums[i] = <<nx, ny>> of tract i - 1 *)
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a
MaxNx(nums) == MaxOf({nums[i][1] : i \in 1..Len(nums)})
MaxNy(nums) == MaxOf({nums[i][2] : i \in 1..Len(nums)})
SkyRecord(nums) == <<Len(nums), MaxNx(nums), MaxNy(nums)>>
Patches(nn) == {<<y * nn[1] + x, x, y>> : x \in 0..(nn[1] - 1), y \in 0..(nn[2] - 1)}
=============================================================================
