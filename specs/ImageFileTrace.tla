--------------------------- MODULE ImageFileTrace ---------------------------
(* Files the real code exported images to. Case: [im, exc, name: [form, b, w, *)
(* h, own], f: bytes of the file, conv: <<width, height, components>> of a    *)
(* JPEG file made from a CMYK one, or << >>].                                *)
EXTENDS ImageFile, TLC, Json, IOUtils
VARIABLES tag, y, clause
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[tag]
Im == C.im
vars == <<tag, y, clause>>
Done == -9
TraceInit == tag \in 1..Len(Cases) /\ y = -2 /\ clause = ""
End(c) == y' = Done /\ clause' = c /\ UNCHANGED tag
Ext(form) == IF form = "converted" THEN "jpg" ELSE form
NameRight == /\ C.name.form = Ext(Form(Im)) /\ C.name.own
             /\ C.name.form # "jpg" => C.name.w = Im.w /\ C.name.h = Im.h
             /\ C.name.form = "img" => C.name.b = Im.bits
Fail == y = -2 /\ C.exc # "none" /\ End("fails with " \o C.exc)
Named == /\ y = -2 /\ C.exc = "none"
         /\ IF NameRight THEN y' = -1 /\ UNCHANGED <<tag, clause>> ELSE End("name")
Whole == /\ y = -1 /\ Form(Im) \in {"jpg", "img"}
         /\ End(IF C.f = Im.data THEN "" ELSE "contents")
Converted == y = -1 /\ Form(Im) = "converted" /\ End(IF C.conv = <<Im.w, Im.h, 3>> THEN "" ELSE "converted image")
Top == IF Header(Im, C.f) # "" THEN Header(Im, C.f) ELSE Palette(Im, C.f)
Open == /\ y = -1 /\ Form(Im) = "bmp"
        /\ IF Top = "" THEN y' = 0 /\ UNCHANGED <<tag, clause>> ELSE End(Top)
Row == /\ y \in 0..(Im.h - 1)
       /\ IF RowRight(Im, C.f, y) THEN y' = y + 1 /\ UNCHANGED <<tag, clause>> ELSE End("samples")
Closed == y >= Im.h /\ End("")
TraceNext == Fail \/ Named \/ Whole \/ Converted \/ Open \/ Row \/ Closed
TraceVerdict == y = Done => PrintT("@@" \o ToJson([id |-> tag, clause |-> clause]))
=============================================================================
