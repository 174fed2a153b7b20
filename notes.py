"""What MANIFEST.json says about each check"""
TV = "TLA+ trace validation (TLC) of engines generated from the specification"
MC = "TLC model checking of the TLA+ iteration machine + conformance of generated behaviours"
MC_FLOW = "TLC model checking of the flow-direction search + TLA+ trace validation of generated engines"
TECHNIQUE = {"C01": MC, "C02": MC, "C08": MC_FLOW,
             "C15": "TLC model checking of the planned histories against libraries that remember + TLA+ trace validation of the histories run on the library",
             **{p: TV for p in ("C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C17",
                                                      "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26")}}
TRUST = "Trusts TLC, the double-precision operator overrides (java/) and the recording driver (harness/)."
NOTES = {p: "Every recorded run conforms to the specification; sampled engines, every point of each. " + TRUST
         for p in TECHNIQUE}
NOTES["C01"] = ("The iteration machine is explored exhaustively for small laws; the library conforms to it on all laws "
                "of one component and sampled others, and every sampled engine reports temperatures its components "
                "agree with. ") + TRUST
NOTES["C02"] = ("The iteration machine is explored exhaustively for small laws, limits and pass counts; the library "
                "ends as the machine does on all laws of one component and on sampled others. ") + TRUST
NOTES["C11"] = ("All models, parameters and formats, with values drawn by the specification; results compared with those "
                "of the engine the specification reads out of the document. ") + TRUST
NOTES["C12"] = ("All legacy models of every component and fluid, compared with the modern document the specification "
                "derives. ") + TRUST
NOTES["C13"] = ("Every single damage (deletion, renaming, retyping, second model) at every path of documents that contain "
                "every model, judged by the specification's schema. ") + TRUST
NOTES["C15"] = ("Histories of engines that differ in one respect (one after another, on four threads, in new processes) with "
                "every bit of every outcome compared; the plan of the histories is model-checked to expose every library "
                "of a class that remembers something. ") + TRUST
NOT_APPLICABLE = {}
