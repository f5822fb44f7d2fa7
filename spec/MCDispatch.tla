----------------------------- MODULE MCDispatch -----------------------------
EXTENDS Dispatch
SomeNumbers == {<<>>, <<1>>, <<255>>, <<340, 2823, 6692, 938, 4634, 6337, 4607, 4317, 6821, 1455>>}
=============================================================================
