----------------------------- MODULE NbListMCq -----------------------------
EXTENDS NbListMC
MCCells == { <<<<3,0,0>>,<<0,4,0>>,<<0,0,5>>>>, <<<<4,0,0>>,<<-2,3,0>>,<<0,0,6>>>>, <<<<0,4,0>>,<<0,0,3>>,<<5,0,0>>>>, <<<<3,1,0>>,<<1,3,1>>,<<0,1,4>>>> }
MCFrac == { << <<0,0,0>> >>, << <<1,1,1>> >>, << <<0,0,0>>, <<1,0,0>> >>, << <<0,1,0>>, <<1,0,1>> >>, << <<0,0,0>>, <<1,1,0>>, <<0,1,1>> >> }
MCRch == { 11, 16, 21 }
=============================================================================
