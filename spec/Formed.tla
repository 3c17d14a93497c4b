-------------------------------- MODULE Formed ------------------------------
(* What holds of every mesh handed to the caller, whatever it shows. m: the numbers of coordinates, corners of triangles,
   colours, texture coordinates and entries of the texture map; ends: where each part of the texture map ends. *)
EXTENDS Integers, Sequences

WellFormed(m) ==
  /\ m.coords % 3 = 0 /\ m.corners % 3 = 0
  /\ 3 * m.colors = m.coords /\ 3 * m.uvs = 2 * m.coords
  \* triangles are made of vertices that are there, three different ones
  /\ m.corners > 0 => (m.lo >= 0 /\ m.hi < m.coords \div 3)
  /\ m.twice = 0
  /\ m.finite
  /\ m.map % 8 = 0
  /\ \A i \in DOMAIN m.ends : m.ends[i] <= m.uvs /\ (i > 1 => m.ends[i - 1] <= m.ends[i])
\* the texture map covers all of the mesh
Mapped(m) == m.uvs > 0 => (m.ends # <<>> /\ m.ends[Len(m.ends)] = m.uvs)
=============================================================================
