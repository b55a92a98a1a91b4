------------------------------ MODULE Multistep ------------------------------
(* Weights of the Adams rules; Steppers.tla re-derives them from the order conditions. *)
EXTENDS Integers, Sequences, Rationals
(* weights for <<f(n-k+1), ..., f(n)>> (explicit) / <<..., f(n), f(n+1)>> (implicit), oldest first *)
AB == << << R(1) >>,
         << <<0 - 1, 2>>, <<3, 2>> >>,
         << <<5, 12>>, <<0 - 4, 3>>, <<23, 12>> >>,
         << <<0 - 3, 8>>, <<37, 24>>, <<0 - 59, 24>>, <<55, 24>> >>,
         << <<251, 720>>, <<0 - 637, 360>>, <<109, 30>>, <<0 - 1387, 360>>, <<1901, 720>> >> >>
AM == << << R(1) >>,
         << <<1, 2>>, <<1, 2>> >>,
         << <<0 - 1, 12>>, <<2, 3>>, <<5, 12>> >>,
         << <<1, 24>>, <<0 - 5, 24>>, <<19, 24>>, <<3, 8>> >>,
         << <<0 - 19, 720>>, <<53, 360>>, <<0 - 11, 30>>, <<323, 360>>, <<251, 720>> >> >>
MaxOrder == 5

=============================================================================
